import json
A="pylops_mpi/DistributedArray.py"; L="pylops_mpi/LinearOperator.py"; SL="pylops_mpi/StackedLinearOperator.py"
B="pylops_mpi/basicoperators/"; S="pylops_mpi/optimization/cls_basic.py"; D="pylops_mpi/utils/decorators.py"
F="pylops_mpi/signalprocessing/Fredholm1.py"; M="pylops_mpi/waveeqprocessing/MDC.py"
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
p("C01","Distributing an array loses, duplicates and reorders nothing",
"Distributing a global array gives every process its own consecutive piece along the distribution axis, in rank order: the balanced split with the remainder on the lowest ranks, or exactly the piece sizes the user asked for. Gathering a distributed array returns, on every process, the global array that was distributed, and the reported global shape, axis, kind of distribution and per-process shapes agree with the pieces. This holds for every number of processes, including more processes than elements, for every axis, number of dimensions and element type, and after flattening.",
["inputs","configurations"],"all global shapes, axes, process counts, piece sizes and element types",
"The tests use three processes and a few shapes which divide evenly or almost; the split is arithmetic on shape, rank and size, and must be right for each of them.",
[A],[("balanced split",A+":local_split"),("scatter by cumulative piece sizes",A+":to_dist"),("gather and concatenate",A+":asarray"),("flattening",A+":ravel")],
[("global shape, axis, partition, local shapes","the layout of the array",A),("local array","the piece of this process",A)],["asarray","local_array","local_shapes"])
p("C02","Replicated arrays are the same on all processes",
"Whatever is assigned to a replicated array, wholly or at some indices and with different values on different processes, afterwards every process holds what the lowest rank assigned. An array replicated without that guarantee takes each process's own value, without communication, and a scattered array's assignment changes only the assigning process's own piece.",
["inputs","histories","schedules"],"all assignments of per-process values at all indices, in all histories of assignments and operations, under all schedules",
"Consistency has to hold after any history of assignments with diverging values on any number of processes; the tests assign a few constants.",
[A],[("assignment broadcasts the value of rank 0",A+":__setitem__")],[("local array","the replica of this process",A)],["local_array after each assignment"])
p("C03","Distributed arithmetic equals the arithmetic of the gathered arrays",
"Negation, addition, subtraction, elementwise and scalar multiplication (also in place), conjugation, copying and zero-filling of distributed arrays give exactly the array that the same operation gives on the gathered arrays, including results that become complex. The result keeps the distribution of its operands: shapes, axis, kind, groups, communicator, and an element type that can hold the result.",
["inputs","programs","configurations"],"all programs of array operations over all layouts, element types and process counts",
"Results must be right for every composition of operations and every layout; the tests apply single operations to one layout on three processes and never mix element types.",
[A],[("elementwise operations on local pieces",A+":add, iadd, multiply, __neg__, conj, copy, zeros_like")],[("local array","the piece of this process",A)],["asarray","metadata of results"])
p("C04","Dot products and norms equal those of the gathered arrays on all processes",
"The dot product and the norms (orders 0, 1, 2, any p, and plus or minus infinity, over the whole array or along the distribution axis) of distributed or replicated arrays equal those of the gathered global array. Every process obtains the same value, however the elements are spread, including processes without any element.",
["inputs","configurations","schedules"],"all arrays, layouts, norm orders, axes and process counts",
"The tests use three processes with evenly filled random arrays; empty pieces, other process counts and other orders are not reached.",
[A],[("local reduction then reduction over processes",A+":dot, _compute_vector_norm, norm")],[],["dot","norm"])
p("C05","Grouped arrays reduce within their group only",
"When an array carries a mask that assigns each process to a group, its dot products and norms on a process cover exactly the pieces held by the processes of that process's group, and are the same on all of them. Operations on such arrays keep the mask in their results, and reject operands with different masks.",
["inputs","configurations","programs"],"all assignments of processes to groups, layouts and programs of array operations",
"Groupings are configurations over process counts: with three processes the tests reach one grouping, in which every group is a single process.",
[A,B+"BlockDiag.py"],[("sub-communicator split by the mask",A+":__init__"),("reduction over it",A+":_allreduce_subcomm"),("mask check",A+":_check_mask")],[("mask, sub-communicator","group of each process",A)],["dot","norm","mask of results"])
p("C06","Ghost cells are exactly the neighbouring elements",
"Extending the pieces of a distributed array by the requested number of cells to the front and back gives each process the corresponding window of the global array: the requested elements that precede and follow its piece, none before the first and after the last process. The request may differ between processes, and the array itself is unchanged.",
["inputs","configurations","schedules"],"all layouts, axes and per-process requests for front and back cells, under all schedules and message bufferings",
"Windows depend on the layout and on each process's request; the tests use equal requests on even layouts.",
[A],[("exchange with rank neighbours",A+":add_ghost_cells")],[],["add_ghost_cells"])
p("C07","The result of an operator does not depend on how its input is distributed",
"Applying an operator to two differently distributed copies of the same global vector gives the same global result with the same distribution. Where the needed transfers would go beyond the neighbouring processes the call is rejected, on all processes, instead of giving a wrong result.",
["inputs","configurations","schedules"],"all layouts of the input vector, all layouts the operator works in, all schedules",
"The redistribution is computed from two arbitrary layouts; the tests mostly pass vectors which already are in the operator's layout.",
[D,A],[("redistribution through ghost cells of computed width",D+":reshaped")],[],["matvec","rmatvec"])
p("C08","Block operators act as the assembled global block matrix",
"Block-diagonal, vertically and horizontally stacked operators, whose blocks are spread over processes in any number and size, act in forward and adjoint mode as the global matrix assembled from all blocks in rank order. Results are distributed as documented: scattered in proportion to the blocks, or replicated where the adjoint or forward sums over processes.",
["inputs","programs","configurations"],"all block counts and sizes per process, all vectors, forward and adjoint, all process counts",
"The assembled matrix depends on every process's blocks; the tests use one square block per process of equal size.",
[B+"BlockDiag.py",B+"VStack.py",B+"HStack.py"],[("offsets by cumulative block sizes",B+"BlockDiag.py"),("sum reduction",B+"VStack.py:_rmatvec")],[],["matvec","rmatvec","shape"])
p("C09","Distributed derivatives equal the serial stencils whatever the process count",
"First and second derivatives, Laplacian and gradient of a distributed array equal those computed serially on the global array, in forward and adjoint mode, for every kind of stencil, order, sampling, edge treatment, axes and weights. Where pieces are too small for the stencil the call is rejected on all processes rather than giving a wrong result.",
["inputs","configurations"],"all shapes, stencil kinds, orders, samplings, edges, weights, axes and process counts",
"Errors at process boundaries show up only for particular piece sizes and kinds; the tests use few sizes on three processes.",
[B+"FirstDerivative.py",B+"SecondDerivative.py",B+"Laplacian.py",B+"Gradient.py",D],[("stencils on ghosted pieces with special first and last process",B+"FirstDerivative.py"),("second derivative",B+"SecondDerivative.py")],[],["matvec","rmatvec"])
p("C10","The Fredholm integral equals the slice-wise product with the whole kernel",
"The Fredholm operator, with its kernel split over processes along the slices in any uneven way, multiplies each slice of the replicated input by the kernel of that slice (its conjugate transpose in the adjoint) and gives every process the whole result. Saving the adjoint kernel and the choice of multiplication method do not change results.",
["inputs","configurations"],"all kernel sizes and splits, real and complex, all options, all process counts",
"The tests use one even split; offsets by cumulative slice counts matter only for uneven ones.",
[F],[("slice offsets per process and gather",F)],[],["matvec","rmatvec"])
p("C11","Operator algebra has its mathematical meaning",
"Adjoint, transpose, conjugate, scaling (by real or complex numbers), sums, differences, products, powers and negations of distributed operators, nested to any depth, act in forward and adjoint mode as the corresponding expression of their matrices. Wrapped serial operators act on replicated vectors as they do serially.",
["programs","inputs"],"all operator expressions, all vectors, forward and adjoint",
"The algebra is a language of expressions; the tests apply single combinators to one operator, with real data.",
[L],[("one class per combinator",L)],[],["matvec","rmatvec","H","T"])
p("C12","Forward and adjoint are adjoint to each other, and the dot test says so",
"For every distributed operator and vectors u and v, the inner product of the forward of u with v equals that of u with the adjoint of v, with all processes taken together. The dot-test utility passes for such operators, and fails (raising when asked to) exactly when the two inner products differ by more than the tolerances.",
["inputs","programs","configurations"],"all operators and expressions of operators, all vectors and process counts, all tolerances",
"Adjointness must hold for every operator on every layout; the tests check chosen vectors and never a failing dot test.",
["pylops_mpi/utils/dottest.py",L,B],[("comparison of both inner products",  "pylops_mpi/utils/dottest.py")],[],["dottest","matvec","rmatvec"])
p("C13","Stacked arrays and stacked operators act component by component",
"Arithmetic, dot products, norms, conjugation and copies of stacks of distributed arrays equal those of the concatenation of the components. Vertical and diagonal stacks of distributed operators and their algebra (adjoint, transpose, conjugate, scaling, sums, differences, products, powers) act as the corresponding block matrices.",
["programs","inputs","configurations"],"all stacks of arrays and operators, all programs over them",
"The tests use stacks of two or three components of one layout and single combinators.",
[A,SL,B+"VStack.py",B+"BlockDiag.py",B+"Gradient.py"],[("componentwise operations",A+":StackedDistributedArray"),("stacked combinators",SL)],[],["asarray","norm","dot","matvec","rmatvec"])
p("C14","Conjugate gradients follow the exact recurrence, alike on all processes",
"For a Hermitian positive definite distributed system, the iterates, residual-norm history and iteration count of conjugate gradients are those of the textbook recurrence on the gathered system, from any starting vector, and iteration stops at the first iterate that meets the tolerance or at the iteration limit. All processes stop at the same iteration with the same history, and right-hand side and starting vector are unchanged.",
["inputs","histories","configurations"],"all systems, starting vectors, iteration limits, tolerances and process counts; run in one go or stepwise",
"The tests look at the final error of converged runs; wrong intermediate iterates, histories or stopping decisions pass.",
[S,"pylops_mpi/optimization/basic.py"],[("recurrence on distributed vectors",S+":CG"),("solver function","pylops_mpi/optimization/basic.py:cg")],[("residual, search direction, squared residual, history","solver state",S)],["cg","cost history","callback"])
p("C15","Distributed least squares follow the exact recurrence, alike on all processes",
"For any distributed least-squares system with any damping, the iterates, the norm histories, the returned norms of residual and damped residual, the termination reason and the iteration count are those of the textbook recurrence for the documented damped functional, from any starting vector. All processes stop at the same iteration with the same history, and data and starting vector are unchanged.",
["inputs","histories","configurations"],"all systems, starting vectors, dampings, iteration limits, tolerances and process counts; run in one go or stepwise",
"The tests look at the final error of converged undamped runs from zero or near solutions.",
[S,"pylops_mpi/optimization/basic.py"],[("recurrence on distributed vectors",S+":CGLS"),("solver function","pylops_mpi/optimization/basic.py:cgls")],[("residual, search direction, squared gradient, histories","solver state",S)],["cgls","cost history","callback"])
p("C16","No deadlock, mismatched collective call or lost message under any schedule",
"In programs where all processes make the same calls on valid inputs, every call returns on every process under every schedule, whether the message layer buffers messages or makes senders wait. All processes take part in the same collective operations in the same order, and no message remains undelivered.",
["schedules","programs","configurations"],"all interleavings of processes and buffering choices of the message layer, for all programs and process counts",
"One test run sees one schedule, and small messages are always buffered by the transport in use.",
[A,D,B,F,S],[("order of sends and receives",A+":add_ghost_cells"),("collective calls outside of rank-dependent branches","pylops_mpi")],[],["per-process sequence of message-passing calls"])
p("C17","Invalid requests are rejected on all processes or on none",
"A request made alike on all processes which any process rejects (inconsistent shapes, distributions or masks, wrong dimensions, too small pieces, unsupported options) is rejected with an error on every process, so that no process is left waiting for others. After the error the existing arrays and operators are unchanged and can be used as before.",
["inputs","histories","fault_sequences"],"all invalid requests in all states, for all process counts, followed by valid requests",
"The tests hardly make invalid requests, since one rejected on some processes only hangs the test run (one such test is commented out).",
[A,B,F,L],[("validation in constructors and operations",A+":_check_local_shapes, _check_partition_shape"),("constructor checks",F)],[],["exceptions per process"])
p("C18","Everything works the same on a communicator that is not the world",
"Arrays, operators, stacks and solvers created on a sub-communicator give the results they would give if that communicator were the world, while other processes independently do something else. They never communicate outside their communicator.",
["configurations","programs","schedules"],"all splits of the processes into communicators, with different programs on each",
"The tests only use the world communicator.",
[A,L,SL,B,F,M,D],[("communicator passed on to results and derived operators","pylops_mpi")],[("base communicator","processes among which an object is distributed",A)],["results and communicators on every group"])
p("C19","Operations change nothing but their result",
"No operation other than assignment and in-place arithmetic changes any existing array or operator, and resulting distributed arrays, and local arrays extended with ghost cells, share no storage with their operands, so that later changes to one never show in the other. Repeating an operation on unchanged operands, at any point of a history, gives the same result.",
["histories","programs"],"all histories of operations and assignments over arrays, operators and solvers",
"Aliasing and hidden state show only when an object is used again after something else was changed; the tests use each object once.",
[A,L,SL,B,S],[("fresh arrays for results",A),("copies of pieces in solvers and wrappers",S)],[],["all objects after every operation"])
p("C20","Multi-dimensional convolution equals time-domain convolution by the kernel",
"The multi-dimensional convolution operator, with its frequency-domain kernel split over processes in any way, equals the circular time-domain convolution with the kernel summed over receivers and scaled as documented, and its adjoint the corresponding correlation, for one- and two-sided time axes, conjugated and prescaled kernels. Even lengths of two-sided time axes are rejected.",
["inputs","configurations"],"all kernels, time lengths, frequency splits and options, all process counts",
"There is no test of this operator.",
[M,F],[("chain of Fourier transforms, frequency selection and Fredholm integral",M)],[],["matvec","rmatvec"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch)
    assert x['statement'].count('. ')<=2,(x['id'])
print(len(P))
