#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

G = "src/Caribou/Geometry/"
T = "src/Caribou/Topology/"
S = "src/SofaCaribou/"
PY = "src/Caribou/Python/"

prop("C01", "Concurrent queries on shared geometric elements give the sequential answers",
 "Any number of threads may call the read-only operations of the same or different geometric elements (shape functions and their derivatives, Jacobian, centre, frame, world/local coordinate conversion, containment, interpolation, quadrature nodes, boundary elements and their node indices, intersection tests), build elements from nodes or from other elements, and compute deformation gradients and tensor products, all at the same time, including the very first use in the process. Every call returns exactly what it returns when the program is single-threaded, whatever the interleaving and whatever was queried before, and no two threads ever touch the same memory in conflict without synchronisation.",
 ["schedules", "histories", "inputs"], "every interleaving of 2..N reader threads at every memory access, every first-use order, for all element types, orders and dimensions and all their const members",
 "The unit tests are single-threaded and call each member once on a few hand-made elements: they never interleave two readers, so a hidden cache, static scratch buffer or unsynchronised lazy table passes them.",
 [G+"Element.h", G+"BaseHexahedron.h", G+"BaseQuad.h", G+"BaseRectangularHexahedron.h", G+"BaseRectangularQuad.h", G+"BaseSegment.h", G+"BaseTetrahedron.h", G+"BaseTriangle.h", G+"Hexahedron.h", G+"Quad.h", G+"RectangularHexahedron.h", G+"RectangularQuad.h", G+"Segment.h", G+"Tetrahedron.h", G+"Triangle.h", "src/Caribou/Mechanics/Elasticity/Strain.h", "src/Caribou/Algebra/Tensor.h"],
 [("const members compute from the element's own nodes into locals", G+"Element.h"), ("function-local static tables (quadrature nodes, boundary indices) initialised once by the language's thread-safe static initialisation", G+"Hexahedron.h get_gauss_nodes / get_boundary_elements_nodes")],
 [("p_nodes", "node positions of the element", G+"Base*.h"), ("gauss_nodes", "static quadrature table per element type", G+"*.h")],
 ["return values of every const member", "conflicting unsynchronised accesses seen by the simulator"])

prop("C02", "Concurrent queries on shared meshes, embeddings and grids are safe",
 "Any number of threads may query the same mesh, domain, barycentric container (embedding), hash grid or regular grid at the same time through their read-only operations: node positions, domain lookup, element construction, element indices, embedding of points, barycentric points, interpolation of fields, candidate elements, cell, edge, face and node queries. Every call returns exactly what it returns when made alone on the same object, whatever the interleaving, and no two threads touch the same memory in conflict without synchronisation.",
 ["schedules", "histories", "inputs"], "every interleaving of 2..N reader threads over one shared object graph (mesh + domains + embeddings + hash grids + 1D/2D/3D grids), every query order",
 "The unit tests query each object from one thread, once; no test shares an object between threads, so any mutable cache behind a const query stays invisible.",
 [T+"Mesh.h", T+"Domain.h", T+"BarycentricContainer.h", T+"HashGrid.h", T+"Grid/Grid.h", T+"Grid/Internal/BaseGrid.h", T+"Grid/Internal/BaseMultidimensionalGrid.h", T+"Grid/Internal/BaseUnidimensionalGrid.h"],
 [("const queries only read the node matrix, the index map and the hash table", T+"Mesh.h, Domain.h, HashGrid.h, BarycentricContainer.h"), ("grid queries are closed-form on the anchor, subdivisions and size", T+"Grid/Internal/BaseGrid.h")],
 [("p_nodes, p_domains", "node positions and named domains", T+"Mesh.h"), ("p_hash_table", "cell to element ids", T+"HashGrid.h"), ("p_barycentric_points", "element and local coordinates of each embedded point", T+"BarycentricContainer.h")],
 ["return values of every const member", "conflicting unsynchronised accesses seen by the simulator"])

prop("C03", "Threads working on unrelated objects never influence each other",
 "Threads that each build, modify, copy, query and destroy their own meshes, domains, embeddings, hash grids, grids and file readers do not interfere: each thread observes exactly the results it would observe if it ran alone in the process, under every interleaving, and there is no conflicting unsynchronised access to memory shared behind the scenes.",
 ["schedules", "histories"], "every interleaving of 2..N threads, each running its own history of constructions, registrations, removals, copies, embeddings, hash-grid insertions and VTK imports",
 "No test runs two threads. Hidden process-wide state (a static buffer, a global counter, a shared pool) is only visible when two independent histories overlap at the wrong instant.",
 [T+"Mesh.h", T+"Domain.h", T+"BarycentricContainer.h", T+"HashGrid.h", T+"IO/VTKReader.cpp", T+"IO/VTKReader.h"],
 [("objects own their data; no process-wide mutable state besides thread-safe static tables", T), ("every reader owns its VTK pipeline", T+"IO/VTKReader.cpp Read")],
 [], ["results of each thread's history", "conflicting unsynchronised accesses seen by the simulator"])

prop("C04", "A mesh is a faithful registry of its named domains through every history",
 "After any sequence of domain additions (created in place or attached as existing objects, named or unnamed), removals by name or by pointer, and lookups, the mesh lists exactly the domains successfully added and not removed, in insertion order, each found by its index and by its name, holding the indices it was given and naming this mesh as its owner. Adding under a name in use, adding a domain that belongs to another mesh, re-adding under a different name, or removing something absent is refused and changes nothing; every operation terminates; and the same holds when memory runs out in the middle of an operation: it reports failure, nothing changes or leaks, and a retry succeeds.",
 ["histories", "fault_sequences", "inputs"], "all operation sequences on one or several meshes of dimension 1, 2 and 3, with an allocation failure at any allocation inside any operation",
 "The unit tests add one to three domains, remove the only one, and never fail an allocation: removals of a later domain, interleavings of add and remove, refused operations followed by use, and failure points are unsampled.",
 [T+"Mesh.h", T+"Domain.h", T+"BaseMesh.h", T+"BaseDomain.h"],
 [("add_domain overloads check name and owner before registering", T+"Mesh.h add_domain"), ("remove / remove_domain search and erase", T+"Mesh.h"), ("unique_ptr ownership of the domains", T+"Mesh.h p_domains")],
 [("p_domains", "ordered list of (name, owned domain)", T+"Mesh.h"), ("p_mesh", "owner of a domain", T+"Domain.h")],
 ["number_of_domains, domain(i), domain(name), domains()", "domain->mesh(), element_indices", "live allocations", "exceptions"])

prop("C05", "Copies, moves and swaps of meshes and domains are complete and independent",
 "Copying, cloning, moving, swapping or assigning meshes and domains, in any order and interleaved with modification and destruction of the sources, always yields objects with exactly the nodes, domain names, order and connectivity of their source; they stay valid and unchanged when the source is modified or destroyed (and the reverse), and every domain held by a mesh names that mesh as its owner. A clone or copy of a domain belongs to no mesh until it is added to one. An allocation failure during a copy is reported, leaks nothing and leaves source and target as they were.",
 ["histories", "fault_sequences"], "all sequences of copy, clone, move, swap, assign, add, remove and destroy over a pool of meshes and domains, with an allocation failure at any allocation",
 "The tests copy one mesh without domains and never use a copy after its source is gone; lifetimes, aliasing and failure points are not sampled.",
 [T+"Mesh.h", T+"Domain.h"],
 [("copy constructor clones each domain", T+"Mesh.h Mesh(const Mesh&)"), ("copy-and-swap assignment and move construction", T+"Mesh.h swap"), ("domain copy re-creates its index buffer", T+"Domain.h Domain(const Domain&)")],
 [("p_buffer / p_elements", "owned indices and the view on them", T+"Domain.h")],
 ["nodes, names, connectivity and owner of every live object after each step", "accesses to released memory", "live allocations"])

prop("C06", "Building an embedding is all-or-nothing and equals the reference embedding",
 "Building an embedding of a point set in a domain, or inserting elements in a hash grid, either completes or reports failure without changing the mesh, leaking memory, or invalidating other embeddings; this holds for failed allocations at any instant, for empty domains and for points of the wrong dimension. Once built, every embedded point that lies inside an element is located in an element that contains it with local coordinates mapping back to the point, every other point is listed exactly once, in order, as outside, interpolation reproduces linear fields, refuses mismatched inputs without writing, and leaves outside rows untouched, and the candidate elements of a point include every inserted element that contains it - whatever failed attempts came before.",
 ["fault_sequences", "histories", "inputs"], "all histories of embed / hash-grid insertion / interpolate calls on random meshes of every element type, with allocation failures at any allocation of any call",
 "Tests embed a fixed cloud once with unlimited memory; neither failure points nor repeated builds nor mixed inside/outside sets with refused calls in between are sampled.",
 [T+"BarycentricContainer.h", T+"HashGrid.h", T+"Domain.h"],
 [("constructor fills the hash grid then the points; exceptions propagate", T+"BarycentricContainer.h"), ("hash grid insertion over the element's bounding cells", T+"HashGrid.h add"), ("size checks before writing", T+"BarycentricContainer.h interpolate")],
 [("p_outside_nodes", "points found in no element", T+"BarycentricContainer.h")],
 ["barycentric_points, outside_nodes, interpolate, closest_elements, HashGrid::get", "live allocations", "exceptions"])

prop("C07", "Read-only queries report memory exhaustion and leave every answer unchanged",
 "When memory runs out inside a read-only query of a mesh, domain, embedding, hash grid, element or 1D/2D/3D grid (positions, domain list, candidate elements, closest elements, cells around a point, cells enclosing points, quadrature or boundary tables on first use, ...), the query fails with a catchable exception; it never terminates the process, leaks, or returns a wrong or partial answer. Every later query on every object, including a retry of the same one, returns exactly what it would have returned had the failure not happened.",
 ["fault_sequences", "histories"], "all query sequences with an allocation failure at any allocation of any query, including first use of lazily built tables",
 "No test ever fails an allocation.",
 [T+"Grid/Internal/BaseGrid.h", T+"HashGrid.h", T+"BarycentricContainer.h", T+"Mesh.h", T+"Domain.h", G+"Hexahedron.h", G+"Tetrahedron.h"],
 [("exceptions propagate out of queries; results are returned by value", T), ("a failed static initialisation is retried on the next use", G)],
 [], ["exceptions", "process termination", "answers after the failure", "live allocations"])

prop("C08", "VTK import reproduces the file however its bytes are delivered",
 "Reading a well-formed legacy VTK unstructured-grid file yields a mesh with exactly the file's points (projected on the varying axes for 1D and 2D readers) and one domain per supported cell type, holding exactly that type's cells in file order, with the nodes of each cell in the file's order (quadratic hexahedra: in the fixed permutation the importer applies), named and numbered consistently; cells of unsupported types are left out and disturb nothing. The result does not depend on how the operating system delivers the bytes: short reads, interrupted system calls, any chunking, ASCII or binary encoding.",
 ["fault_sequences", "inputs", "configurations"], "all generated files (dimension 1-3, all supported and some unsupported cell types mixed in any order, ASCII and binary) under all sequences of short and interrupted reads",
 "Tests read a dozen fixed ASCII files from a healthy disk, each with a single layout.",
 [T+"IO/VTKReader.cpp", T+"IO/VTKReader.h"],
 [("VTKReader::Read and mesh() on top of vtkUnstructuredGridReader", T+"IO/VTKReader.cpp"), ("axis extraction for 1D/2D", T+"IO/VTKReader.cpp extract_axes_from_3D_vectors"), ("node reordering of quadratic hexahedra", T+"IO/VTKReader.cpp")],
 [], ["nodes, domains, indices of the produced mesh"])

prop("C09", "A damaged or failing VTK file never becomes a wrong mesh or a crash",
 "If a file is missing, unreadable, empty, truncated at any byte, lost or changed while being read, hit by an I/O error, not a legacy unstructured grid, has its geometry sections (header, points, cells, cell types) cut, swapped or inconsistent, or contains cells that refer to points it does not have or have the wrong number of points, the import reports an error with an exception, or yields exactly the mesh described by the well-formed content that was delivered. It never crashes, hangs, reads out of bounds, or yields a mesh with invented or missing content, and the process can import a healthy file afterwards.",
 ["fault_sequences", "crash_points", "inputs"], "every truncation point, failing or short read, open failure, vanished file and structural corruption of generated files in 1D, 2D and 3D, ASCII and binary, followed by healthy imports",
 "The only negative test is none at all: every test file is valid and the disk never fails.",
 [T+"IO/VTKReader.cpp"],
 [("existence check", T+"IO/VTKReader.cpp Read"), ("verification that the file was read completely and that cells are consistent", T+"IO/VTKReader.cpp Read / mesh")],
 [], ["exception or mesh content", "process survival"])

prop("C10", "VTK readers can be reused, customised and outlived safely",
 "A reader can be described (printed) and produce its mesh any number of times, whatever data arrays the file carries, and each mesh is equal to the others, independent of them and of the reader, and remains valid after the reader is copied, changed or destroyed. A custom domain builder is called exactly once per import and cell type it is registered for, with exactly that type's indices, the last registration wins and affects only later imports of that reader; if a builder throws or memory runs out, the failure is reported, nothing leaks and the reader still works afterwards.",
 ["histories", "fault_sequences"], "all sequences of read, copy, register builder, print, import, destroy over several readers and meshes, with builders that fail and allocation failures at any instant of an import",
 "Tests import once per reader with one custom builder, and destroy everything at scope exit.",
 [T+"IO/VTKReader.cpp", T+"IO/VTKReader.h"],
 [("mesh() rebuilds the mesh from the pipeline output", T+"IO/VTKReader.cpp mesh"), ("p_domain_builders map", T+"IO/VTKReader.h register_element_type")],
 [("p_domain_builders", "cell type to builder", T+"IO/VTKReader.h")],
 ["meshes, builder calls, live allocations"])

prop("C11", "Python objects stay valid whatever order they are dropped or collected in",
 "Every object obtained from the Python bindings (mesh, domain, domain list, element, node indices, embedding, barycentric points, quadrature nodes, hash grid, grid cells, arrays) remains usable and keeps its value for as long as Python holds a reference to it, whatever other objects have been dropped, garbage-collected or created in between, and holding or dropping objects in any order never crashes the interpreter. A binding call that raises leaves the objects involved unchanged and leaks nothing.",
 ["histories", "schedules", "fault_sequences"], "all sequences of binding calls, reference drops and garbage-collection instants over meshes, domains, elements, embeddings and grids, including refused calls",
 "The Python tests keep every object alive until the end of the test function.",
 [PY+"Topology/Domain.h", PY+"Topology/Mesh.cpp", PY+"Topology/BarycentricContainer.h", PY+"Geometry/Element.h", PY+"Topology/Grid.cpp", PY+"Topology/HashGrid.cpp"],
 [("return value policies and keep_alive of the bindings", PY), ("mesh owns its domains; Python holders of domains do not delete", PY+"Topology/Domain.h")],
 [], ["values read back from every held object after each drop / collection"])

# ---- pure functions: not simulation targets -------------------------------------------------
NAWHY = "Tests evaluate it at a handful of points of a handful of elements."
prop("N01", "Shape functions form a nodal basis and a partition of unity",
 "For every element type the shape functions sum to one everywhere, equal one at their own node and zero at the others, and their derivatives sum to zero and are the derivatives of the shape functions.",
 ["inputs"], "all element types and local coordinates", NAWHY, [G+"Hexahedron.h", G+"Tetrahedron.h", G+"Quad.h", G+"Triangle.h", G+"Segment.h"], [("closed-form polynomials", G)])
prop("N02", "World and local coordinates are inverse of each other",
 "For every non-degenerate element, converting local to world coordinates and back recovers the point, and the Jacobian is the derivative of the map.",
 ["inputs"], "all element geometries and points", NAWHY, [G+"Element.h"], [("Newton iterations on the isoparametric map", G+"Element.h local_coordinates")])
prop("N03", "Quadrature integrates the polynomials it promises exactly",
 "The quadrature nodes and weights of each element integrate the polynomials of the documented degree exactly.",
 ["inputs"], "all polynomials of the degree", NAWHY, [G+"Hexahedron.h", G+"Tetrahedron.h"], [("constant tables", G)])
prop("N04", "Grid numbering is a bijection between coordinates and indices",
 "In every regular grid, cell, node, edge and face indices and grid coordinates map one to one, and the reported nodes of each cell, edge and face are its geometric corners.",
 ["inputs"], "all grid sizes and indices", NAWHY, [T+"Grid/Grid.h"], [("index arithmetic", T+"Grid/Grid.h")])
prop("N05", "Intersection predicates are geometrically correct",
 "Segment, triangle, polygon and box intersection tests answer true exactly when the shapes meet.",
 ["inputs"], "all pairs of shapes", NAWHY, [G+"BaseRectangularHexahedron.h"], [("separating axis tests", G+"BaseRectangularHexahedron.h")])
prop("N06", "Strain and tensor helpers agree with their definitions",
 "Deformation gradient, Green-Lagrange strain and the tensor products equal their textbook definitions.",
 ["inputs"], "all matrices", NAWHY, ["src/Caribou/Mechanics/Elasticity/Strain.h", "src/Caribou/Algebra/Tensor.h"], [("closed-form expressions", "src/Caribou/Algebra/Tensor.h")])
prop("N07", "Material stress and stiffness derive from the strain energy",
 "For every hyperelastic material the second Piola-Kirchhoff stress is the derivative of the energy density and the stiffness tensor the derivative of the stress.",
 ["inputs"], "all deformation gradients and parameters", "The SofaCaribou tests are not built without SOFA.", [S+"Material/NeoHookeanMaterial.h", S+"Material/SaintVenantKirchhoffMaterial.h"], [("closed-form expressions", S+"Material/")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
