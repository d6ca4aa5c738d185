#!/usr/bin/env python3
"""Maintains known_findings.json: open findings (by explorer signature) and repairs."""
import json,os,subprocess
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F=[]
def fixed(prop,commit,what): F.append({"property":prop,"status":"fixed","commit":commit,"text":f"fixed: property={prop} {commit} {what}"})
def openf(prop,sig,what,where): F.append({"property":prop,"status":"open","signature":sig,"text":what,"where":where})
fixed("C04","e514f21","TokenList::operator[] was declared but never defined, so indexed access to a token list did not link")
fixed("C04","84f3412","removing an already read token (or popFront after reads) moved the sequential reader past an unread token")
fixed("C04","210a639","popFront on a token that is itself a token list returned a list holding it instead of the token")
fixed("C13","3065ac6","NF_ASSERT_THROW did not compile with a streamed message")
fixed("C13","769c379","NF_ASSERT_EQUAL compared the wrong thing for operands with low-precedence operators")
fixed("C13","c16c09e","NF_DINFO in an unbraced if expanded to two statements in debug builds")
fixed("C13","f87f0bf","NeoFOAM_ASSERT_EQUAL_LENGTH expanded to a bare if that captured a following else and misread expression operands")
fixed("C18","87990c5","patchEnd returned the start of the patch plus nothing: the end offset was wrong")
exec(open(f"{H}/tools/findings_more.py").read()) if os.path.exists(f"{H}/tools/findings_more.py") else None
json.dump({"findings":F},open(f"{H}/known_findings.json","w"),indent=1)
