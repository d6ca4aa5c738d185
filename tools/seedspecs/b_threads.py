_ID='''        static std::atomic<int> counter {0};
        return "doc_" + std::to_string(counter++);'''
_DEMO=r'''
#include "NeoFOAM/core/database/document.hpp"
#include <set>
#include <thread>
#include <vector>
int main()
{
    constexpr int T = 8, N = 60000;
    for (int round = 0; round < 5; ++round)
    {
        std::vector<std::vector<std::string>> ids(T);
        std::vector<std::thread> th;
        std::atomic<bool> go {false};
        for (int t = 0; t < T; ++t)
            th.emplace_back([&, t] { while (!go) {} for (int i = 0; i < N; ++i) ids[t].push_back(NeoFOAM::Document().id()); });
        go = true;
        for (auto& t : th) t.join();
        std::set<std::string> all;
        for (auto& v : ids) for (auto& s : v) if (!all.insert(s).second) return 1;
    }
    return 0;
}
'''
_H="include/NeoFOAM/core/database/document.hpp"
_SRC=CORE+" src/core/database/document.cpp -pthread"
seed("doc-id-load-then-store","C06",[(_H,_ID,'''        static std::atomic<int> counter {0};
        const int id = counter.load(std::memory_order_relaxed);
        counter.store(id + 1, std::memory_order_relaxed);
        return "doc_" + std::to_string(id);''')],_DEMO,sources=_SRC,needs="two threads creating documents with one reading the counter between the other's load and store",breaks="two documents get the same id")
seed("doc-id-per-thread","C06",[(_H,_ID,'''        // one counter per thread avoids contention
        thread_local int counter = 0;
        return "doc_" + std::to_string(counter++);''')],_DEMO,sources=_SRC,needs="documents created in two threads",breaks="ids repeat across threads")
seed("doc-id-block-allocation","C06",[(_H,_ID,'''        // ids are handed out in blocks of 4
        static std::atomic<int> nextBlock {0};
        static std::atomic<int> position {0};
        static std::atomic<int> block {0};
        const int p = position.fetch_add(1);
        if (p % 4 == 0)
        {
            block.store(nextBlock.fetch_add(1));
        }
        return "doc_" + std::to_string(4 * block.load() + p % 4);''')],_DEMO,sources=_SRC,needs="a block boundary crossed by one thread while another is between its two steps",breaks="two documents get the same id")
