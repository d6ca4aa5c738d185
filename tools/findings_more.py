fixed("C14","173f365","serial parallelReduce started from the caller's variable instead of the neutral element, so the executors returned different results")
fixed("C14","7bb128c","map, fill and setField treated an explicit empty range {0,0} as the whole field")
fixed("C15","3357917","resizing a field to zero and back allocated a second block and lost the first")
fixed("C16","52cea2c","scaling a non-scalar field by a scalar field did not compile")
fixed("C16","4e1aa03","comparing a field with a view did not compile")
fixed("C18","ea1df19","the constructor of an empty DomainField did not compile")
fixed("C18","4663f49","boundary fields copied to another executor reported the executor they came from")
fixed("C18","70452cb","the patch range of a boundary field on a device was read from device memory on the host")
fixed("C19","7c83943","the single cell mesh reported face centres as the centres of its boundary cells")
fixed("C20","f905952","interpolating a vector field along a scalar flux did not compile")
fixed("C20","7eb315d","the upwind weights were returned uninitialised")
fixed("C21","37adf77","matrix offsets of cells with more than 255 faces wrapped around")
fixed("C22","04b1cbe","the explicit divergence of a vector field did not compile")
fixed("C22","a58f96a","the Laplacian of a vector field into a volume field did not compile")
fixed("C22","7a7082e","the divergence added to whatever its result field held before")
fixed("C22","df82e1f","the gradient added to whatever its result field held before")
fixed("C22","7ec03e7","the Laplacian added to whatever its result field held before")
fixed("C22","7caf3df","the explicit Laplacian ignored the diffusivity")
fixed("C22","dc6a1a1","a source term put into an expression was silently ignored")
fixed("C23","e51ff4d","the implicit divergence used fixed weights whatever scheme was selected")
fixed("C23","3febbe3","the implicit divergence dropped the prescribed gradient of the boundary")
fixed("C23","74b8466","the explicit time derivative ignored the scaling and the cell volume convention of the implicit one")
fixed("C25","e9c865b","adding an expression to itself iterated over the list of terms it was growing")

fixed("C26","251511c","the implicit time integration ignored explicit terms")
fixed("C26","8aefa12","the implicit time integration left stale boundary values")
fixed("C26","f714819","the time integration received the schemes instead of the solution settings, so no solver settings of the caller reached it")
openf("C26","implicit-term-dropped","the explicit scheme silently drops implicit terms of the equation (ddt(phi) + imp::source/div/laplacian under forwardEuler)","harness/C26.cpp implicit_term_forward")
openf("C26","scaled-derivative-ignored","the explicit scheme ignores the factor of the time derivative (4*ddt(phi) + f advances like ddt(phi) + f)","harness/C26.cpp scaled_derivative")
fixed("C32","e2ed807","converting a linear system to other types did not compile, converting matrix values neither")
fixed("C32","3e5456c","a stored matrix entry was not found when the columns of its row are not in ascending order")
fixed("C32","d730597","copying a matrix to another executor always put it on the serial executor")

fixed("C34","2b67377","the implicit divergence lost boundary contributions of a cell with several boundary faces under concurrency")
fixed("C34","63c223a","the implicit Laplacian lost boundary contributions of a cell with several boundary faces under concurrency")
fixed("C34","d5579ed","steady solves built a second sparsity pattern, whose column order may differ from the one the operators fill")
fixed("C34","583a68d","implicit steps built a second sparsity pattern, whose column order may differ from the one the operators fill")
fixed("C31","d76f421","copying the object that starts the message layer finalised the layer once per copy")
fixed("C30","f2f8b86","the halo exchange did not compile (it used an element access fields do not have)")
fixed("C30","f389559","starting a second concurrent exchange left the first one with a dangling buffer")
openf("C30","names-share-a-tag","two exchange names with the same hashed tag (e.g. field30 and field58) get each other's data when two ranks start them in different orders","harness/C30.cpp shared_tag")
fixed("C36","6c39982","a copied Runge-Kutta integrator dereferenced the solver context it does not have and lost its equation")
fixed("C36","a439024","copied integrator vectors shared the storage of the original and dangled when it died")
fixed("C36","be9360f","a kept Runge-Kutta integrator ignored the time, values, field and equation of later calls")
fixed("C36","842221d","Runge-Kutta steps left stale boundary values")
fixed("C36","4526a34","PETSc was given the transpose of every unsymmetric system")
fixed("C36","8780dab","copying a PETSc solver gave an empty object (crash on solve)")
fixed("C36","914975b","PETSc index arrays were put on the stack: large systems crashed")
fixed("C36","38c3a4f","the host solution array of PETSc was read as device memory on a GPU")
fixed("C36","e9afb3e","copying a Ginkgo solver gave an empty object (crash on solve)")
fixed("C21","aed2172","a copied mesh shared the cached matrix structure and geometry of its source, which refer to the source mesh (dangling once it is gone)")
fixed("C20","0ba16f1","interpolation weights of non-uniform meshes with micrometre cells fell back to one half (absolute threshold of single precision)")
fixed("C33","8175266","a steady solve left the boundary values of the old solution (stale for gradient and extrapolated patches)")
openf("C13","empty-view-index-zero","debug builds, record mode: index 0 of an empty view is out of range, but recorded as 0, which means none; a later offending index replaces it","harness/C13.cpp view_empty")
fixed("C02","0747956","assigning a dictionary one of its own sub-dictionaries read freed memory")
fixed("C04","ed04c40","assigning a token list one of its own tokens read freed memory")
fixed("C37","de5f6cd","inserting a value whose copy fails left an empty entry under the key; inserting an enclosing dictionary under a new key stored it with an additional empty entry")
fixed("C38","efe40c6","destroying two objects of one run-time selected class in two threads wrote their shared registration flag without synchronisation")
