"""Build recipes of the checks."""
DEFINES=["-DNF_WITH_GINKGO=0","-DNF_WITH_PETSC=0","-DNEOFOAM_DP_SCALAR=1"]
ASAN=["-fsanitize=address"]
CORE=["src/core/dictionary.cpp","src/core/demangle.cpp","src/core/tokenList.cpp"]
DB=CORE+["src/core/database/database.cpp","src/core/database/collection.cpp","src/core/database/document.cpp"]
def plain(harness,sources,**k):
    return [dict(name="asan",harness=harness,sources=sources,flags=ASAN,**k)]
CHECKS={}
CHECKS["C01"]=dict(variants=plain(["C01.cpp"],CORE))
CHECKS["C02"]=dict(variants=plain(["C02.cpp"],CORE))
CHECKS["C04"]=dict(variants=plain(["C04.cpp"],CORE))
STENCIL=["src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp"]
CHECKS["C03"]=dict(variants=plain(["C03.cpp"],DB+STENCIL))
CHECKS["C07"]=dict(variants=plain(["C07.cpp"],DB))
CHECKS["C08"]=dict(variants=plain(["C08.cpp"],DB))
CHECKS["C09"]=dict(variants=plain(["C09.cpp"],DB))
CHECKS["C12"]=dict(variants=plain(["C12.cpp"],CORE+STENCIL))
CHECKS["C37"]=dict(variants=plain(["C37.cpp"],DB+STENCIL))
import itertools
SEL=["selA.cpp","selB.cpp","selC.cpp","selD.cpp"]
def sel_orders(tier=None):
    # every order of the five units; unit 0 is the one with main()
    return list(itertools.permutations(range(5)))
for _p in("C10","C11"):
    CHECKS[_p]=dict(variants=plain([_p+".cpp"]+SEL,CORE,link_orders=sel_orders()))
CHECKS["C13"]=dict(variants=[
    dict(name=n,harness=["C13.cpp"],sources=[],flags=ASAN,shims=["shim/cpptrace","shim/mpiabort"],defines=DEFINES+d,fallback_defines=["-DNF_REDUCED"])
    for n,d in(("release",[]),("debug",["-DNF_DEBUG"]),("debug-info",["-DNF_DEBUG_INFO"]),("release-mpi",["-DNF_WITH_MPI_SUPPORT"]),("debug-mpi",["-DNF_DEBUG","-DNF_WITH_MPI_SUPPORT"]))])
WRAP=["-Wl,--wrap="+s for s in("__cxa_guard_acquire","__cxa_guard_release","__cxa_guard_abort","pthread_mutex_lock","pthread_mutex_unlock","pthread_mutex_trylock")]
TSANI=["-O1","-fsanitize=thread","-D_GLIBCXX_EXTERN_TEMPLATE=0"]
def threads(harness,sources,**k):
    return [dict(name="threads",harness=harness,sources=sources,support=["mc/sched.cpp"],flags=["-pthread"],hflags=TSANI,rflags=TSANI,lflags=WRAP,**k)]
CHECKS["C06"]=dict(variants=threads(["C06.cpp"],CORE+["src/core/database/document.cpp"]))
CHECKS["C38"]=dict(variants=threads(["C38.cpp"]+SEL,DB+STENCIL))
# ---- checks with the stand-in for Kokkos ------------------------------------------------------
KSH=["shim/kokkos","shim/cpptrace","shim/mpiabort"]
EXE=["src/executor/CPUExecutor.cpp","src/executor/GPUExecutor.cpp","src/executor/serialExecutor.cpp"]
PRIM=["src/core/primitives/vector.cpp"]
def kok(harness,sources,**k):
    return [dict(name="asan",harness=harness,sources=sources,support=["shim/kokkos/kk.cpp"],flags=ASAN,shims=KSH,**k)]
CHECKS["C14"]=dict(variants=kok(["C14.cpp"],EXE+PRIM))
CHECKS["C15"]=dict(variants=kok(["C15.cpp"],EXE+PRIM))
CHECKS["C16"]=dict(variants=kok(["C16.cpp"],EXE+PRIM))
def kok2(harness,sources,**k): # release and debug builds
    return [dict(name=n,harness=harness,sources=sources,support=["shim/kokkos/kk.cpp"],flags=ASAN,shims=KSH,defines=DEFINES+d,**k) for n,d in(("release",[]),("debug",["-DNF_DEBUG"]))]
CHECKS["C16"]=dict(variants=kok2(["C16.cpp"],EXE+PRIM))
CHECKS["C17"]=dict(variants=kok(["C17.cpp"],EXE+PRIM))
MESH=EXE+PRIM+["src/mesh/unstructured/unstructuredMesh.cpp","src/mesh/unstructured/boundaryMesh.cpp"]+STENCIL+CORE
CHECKS["C18"]=dict(variants=kok(["C18.cpp"],MESH))
CHECKS["C19"]=dict(variants=kok(["C19.cpp"],MESH))
FV="src/finiteVolume/cellCentred/"
GEO=[FV+"stencil/basicGeometryScheme.cpp",FV+"stencil/geometryScheme.cpp"]
INTERP=[FV+"interpolation/linear.cpp",FV+"interpolation/upwind.cpp"]
CHECKS["C20"]=dict(variants=kok(["C20.cpp"],MESH+GEO+INTERP))
def kokT(harness,sources,**k): # iterations of a chosen kernel run concurrently
    return [dict(name="threads",harness=harness,sources=sources,support=["shim/kokkos/kk.cpp","mc/sched.cpp"],flags=["-pthread","-DKK_THREADS"],hflags=TSANI,rflags=TSANI,lflags=WRAP,shims=KSH,**k)]
STRUCT=[FV+"linearAlgebra/sparsityPattern.cpp",FV+"stencil/cellToFaceStencil.cpp"]
CHECKS["C21"]=dict(variants=kok(["C21.cpp"],MESH+STRUCT)+kokT(["C21t.cpp"],MESH+STRUCT))
OPS=[FV+"operators/"+x+".cpp" for x in("gaussGreenDiv","gaussGreenGrad","gaussGreenLaplacian","surfaceIntegrate","sourceTerm","ddtOperator")]+[FV+"faceNormalGradient/uncorrected.cpp"]
DSL=["src/dsl/"+x+".cpp" for x in("coeff","explicit","spatialOperator","temporalOperator")]
CHECKS["C22"]=dict(variants=kok(["C22.cpp"],MESH+GEO+INTERP+STRUCT+OPS+DSL))
BCS=[FV+"boundary/boundary.cpp"]
FLD=["src/core/database/"+x+".cpp" for x in("database","collection","document","fieldCollection","oldTimeCollection")]
CHECKS["C23"]=dict(variants=kok(["C23.cpp"],MESH+GEO+INTERP+STRUCT+OPS+DSL+BCS+FLD))
CHECKS["C24"]=dict(variants=kok(["C24.cpp"],MESH+BCS+FLD))
CHECKS["C25"]=dict(variants=kok(["C25.cpp"],MESH+GEO+INTERP+STRUCT+OPS+DSL+BCS+FLD))
CHECKS["C27"]=dict(variants=kok(["C27.cpp"],MESH+BCS+FLD))
CHECKS["C28"]=dict(variants=kok(["C28.cpp"],MESH+BCS+FLD))
TIME=["src/timeIntegration/timeIntegration.cpp"]
ALLFV=MESH+GEO+INTERP+STRUCT+OPS+DSL+BCS+FLD
CHECKS["C05"]=dict(variants=plain(["C05.cpp"],CORE)+[dict(v,name="schemes",optional=True) for v in kok(["C05k.cpp"],ALLFV+TIME)])
CHECKS["C26"]=dict(variants=kok(["C26.cpp"],ALLFV+TIME))
CHECKS["C33"]=dict(variants=kok(["C33.cpp"],ALLFV+TIME))
CHECKS["C32"]=dict(variants=kok2(["C32.cpp"],EXE+PRIM))
CHECKS["C35"]=dict(variants=kok(["C35.cpp"],MESH+BCS+FLD+[FV+"auxiliary/coNum.cpp"]))
CHECKS["C34"]=dict(variants=kokT(["C34.cpp"],ALLFV+TIME+[FV+"auxiliary/coNum.cpp"]))
MPISH=["shim/kokkos","shim/cpptrace","shim/fakempi"]
def mpi(harness,sources,variants=(("release",[]),("debug",["-DNF_DEBUG"])),**k): # ranks as tasks of one process
    return [dict(name=n,harness=harness,sources=sources,support=["shim/kokkos/kk.cpp","shim/fakempi/fakempi.cpp"],flags=ASAN+["-pthread"],shims=MPISH,defines=DEFINES+["-DNF_WITH_MPI_SUPPORT"]+d,**k) for n,d in variants]
HALF=["src/core/mpi/halfDuplexCommBuffer.cpp"]
CHECKS["C29"]=dict(variants=mpi(["C29.cpp"],PRIM+HALF))
CHECKS["C31"]=dict(variants=mpi(["C31.cpp"],PRIM,(("release",[]),("threads-required",["-DNF_REQUIRE_MPI_THREAD_SUPPORT"]),("debug",["-DNF_DEBUG","-DNF_REQUIRE_MPI_THREAD_SUPPORT"]))))
CHECKS["C30"]=dict(variants=mpi(["C30.cpp"],EXE+PRIM+HALF+["src/mesh/unstructured/communicator.cpp"]))
# ---- external back ends (stand-ins) -----------------------------------------------------------
def ext(name,harness,sources,shim,support=[],defs=[]):
    return [dict(name=name,optional=True,harness=[harness],sources=sources,support=["shim/kokkos/kk.cpp"]+support,flags=ASAN,shims=KSH+[shim],defines=[d for d in DEFINES if d.split("=")[0] not in [x.split("=")[0] for x in defs]]+defs)]
CHECKS["C36"]=dict(variants=ext("sundials","C36s.cpp",ALLFV+TIME+["src/timeIntegration/rungeKutta.cpp"],"shim/sundials",["shim/sundials/fakesun.cpp"])
    +ext("petsc","C36p.cpp",ALLFV+TIME,"shim/petsc",["shim/petsc/fakepetsc.cpp"],["-DNF_WITH_PETSC=1"])
    +ext("ginkgo","C36g.cpp",ALLFV+TIME+["src/linearAlgebra/ginkgo.cpp","src/linearAlgebra/utilities.cpp"],"shim/ginkgo",["shim/ginkgo/fakeginkgo.cpp"],["-DNF_WITH_GINKGO=1"]))
