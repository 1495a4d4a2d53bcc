"""Property list: the single source of properties.jsonl and MANIFEST.json (python3 meta/gen.py)."""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, note=None, na=None, state=(), technique=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=['src/' + f for f in files], mechanism=[dict(name=a, where='src/' + b) for a, b in mech], state=list(state), observe_at=[], hook_needed=None),
                  note=note, na=na, technique=technique))


prop('M01', 'Sparse matrix equals the sum of the entries given to it',
     'The compressed matrix holds, at every row and column, exactly the sum of the values added there since the last clear, with each stored entry listed once in increasing order. '
     'Multiplying by it or by its transpose, real or complex, gives the mathematical product for both storage orders. '
     'Clearing removes all values, and a symbolically frozen matrix keeps its sparsity pattern.',
     ['inputs', 'histories'], 'all dimensions, all sequences of entries, clears and finalisations, all vectors, both storage orders, real and complex',
     'The only math test factors one dense matrix; no test builds a sparse matrix or multiplies by one.',
     ['math/CompressedMatrix.cc', 'math/CompressedMatrix.hh'],
     [('row/column products', 'math/CompressedMatrix.cc'), ('triplet accumulation, compression and clear', 'math/CompressedMatrix.cc')],
     note='Building the compressed arrays (CreateMatrix, Finalize) is a bounded native check: random histories up to 6x6 and 26 operations.')
prop('G01', 'Geometric couplings, volumes and lengths match the mesh geometry',
     'For every finished mesh the reported node positions, edge lengths, inverse lengths, unit vectors, edge indexes, couplings and node volumes are those of the control-volume geometry of the mesh. '
     'An edge coupling is the sum of the contributions of the elements that share the edge, and a node volume is the sum of the shares of its edges. '
     'Each quantity has exactly one value per node, edge or element edge.',
     ['inputs', 'configurations'], 'all 1D, 2D and 3D meshes of any size and connectivity, all coordinates',
     'No stable test builds a mesh; the shapes a regression test samples are few and regular.',
     ['GeomModels', 'models/EdgeScalarData.cc', 'models/TriangleEdgeScalarData.cc', 'models/TetrahedronEdgeScalarData.cc'],
     [('edge length and direction', 'GeomModels/EdgeLength.cc'), ('element couplings', 'GeomModels/TetrahedronEdgeCouple.cc'), ('accumulation on edges', 'models/TriangleEdgeModel.cc')])
prop('G02', 'Edge data is projected to nodes and elements without loss or bias',
     'Values on edges become node values as the average over the edges that touch the node, and an edge vector as the direction-weighted average. '
     'Values on element edges become node values as the sum, plain average or coupling-weighted average over every element edge that touches the node, and element values as the mean over the edges of the element. '
     'Nodes that nothing touches get the empty sum.',
     ['inputs', 'configurations'], 'all meshes, all edge and element-edge values, all three interpolation types',
     'No stable test evaluates an edge or element-edge model.',
     ['models/EdgeModel.cc', 'models/TriangleEdgeModel.cc', 'models/TetrahedronEdgeModel.cc'],
     [('edge to node averages', 'models/EdgeModel.cc'), ('triangle edge interpolation', 'models/TriangleEdgeModel.cc'), ('tetrahedron edge interpolation', 'models/TetrahedronEdgeModel.cc')])
prop('E01', 'Each region equation assembles exactly its control-volume balance',
     'The residual of an equation is, in the row of every node, the sum of its node models times node volume, its edge and element fluxes times coupling leaving the first node and entering the second, and its volume models times the share of each node. '
     'The assembled matrix holds the given derivative of each of these terms at the column of the variable and node it belongs to, for every solution variable, and nothing for derivatives that are not given. '
     'Only the requested part (matrix, residual or both; steady or time-dependent models) is assembled.',
     ['inputs', 'configurations'], 'all meshes in 1D, 2D and 3D, all model values, all numbers and orders of equations, all choices of models and weights',
     'No stable test assembles an equation.',
     ['Equation/Equation.cc', 'AutoEquation/ExprEquation.cc'],
     [('assembly over nodes, edges and elements', 'Equation/Equation.cc'), ('choice of models', 'AutoEquation/ExprEquation.cc')])
prop('U01', 'Every node is updated from its own solution entry by the chosen rule',
     'A Newton update changes the variable of an equation at every node by the solution entry at the row of that equation and node: fully, logarithmically damped above 0.0259, or, for positive variables, cut to a thousandth of the old value so that it stays positive. '
     'The absolute and relative errors of an equation are the largest over its nodes, reported with a node that attains them, and those of a region are the sums over its equations; an update of a device reaches each of its regions once, and its errors are the largest absolute and the summed relative error of them. '
     'Small-signal and noise results store the real and imaginary part of the entry of every node.',
     ['inputs', 'histories'], 'all meshes, all solution vectors and old values, all update rules, all numbers and orders of equations',
     'No stable test performs an update.',
     ['Equation/Equation.cc', 'Geometry/Region.cc', 'Geometry/Device.cc', 'Equation/EquationHolder.cc'],
     [('update rules and error norms', 'Equation/Equation.cc'), ('update of all equations of a region', 'Geometry/Region.cc'), ('update of all regions', 'Geometry/Device.cc')])

prop('N01', 'Every unknown owns exactly one row of the system',
     'The equations of a region are numbered without gaps: a new equation takes the next index, a replaced one keeps its index, and deleting one moves the later ones down. '
     'Each solution variable belongs to exactly one equation and maps back to it, and an equation for a variable of another equation is refused. '
     'Every pair of region equation and node, and every circuit node other than ground, owns its own row; the rows of all devices, regions and circuit nodes follow each other without overlap.',
     ['inputs', 'histories'], 'all histories of adding, replacing and deleting equations, all numbers of devices, regions, equations, nodes and circuit nodes and all their names',
     'No stable test adds an equation to a region or numbers a system.',
     ['Geometry/Region.cc', 'Geometry/Device.cc', 'Circuit/data/NodeKeeper.cc', 'math/Newton.cc'],
     [('equation tables', 'Geometry/Region.cc'), ('row blocks of the regions', 'Geometry/Device.cc'), ('circuit node numbers', 'Circuit/data/NodeKeeper.cc')])
prop('C01', 'Contact equations, circuit rows and terminal currents match the contact',
     'In the row of every node of a contact, a contact equation enters exactly its models times volume or coupling and their derivatives, including the one by its circuit node, and drops the bulk row of the node once. '
     'The circuit node of the contact receives the total current (or charge in time-dependent loads) leaving through the contact, and the reported terminal current and charge are that same sum; edges between two contact nodes cancel. '
     'A node shared by contacts of the same region belongs, for every equation name, to exactly one contact that has an equation of that name.',
     ['inputs', 'configurations'], 'all meshes in 1D, 2D and 3D, all contacts and shared nodes, all model values, all choices of models and circuit nodes',
     'No stable test creates a contact.',
     ['Equation/ContactEquation.cc', 'AutoEquation/ExprContactEquation.cc'],
     [('assembly on contact nodes and circuit nodes', 'Equation/ContactEquation.cc'), ('choice of models', 'AutoEquation/ExprContactEquation.cc')],
     note='The choice of the nodes a contact owns (GetActiveNodes) is used through a contract and checked natively, bounded.')
prop('I01', 'Interface equations tie the two sides of an interface as their type says',
     'For each pair of facing nodes, a continuous interface equation replaces the second region\'s row by its own value and folds that row into the first region\'s, a flux equation adds value times surface area to the first row and subtracts it from the second, and a hybrid one folds a copy of the second row into the first and subtracts value times area from the second. '
     'The matrix receives the derivatives by the variables of both regions at their own columns, and nothing else. '
     'A pair is left out when a contact or another interface already has the equation of either side at that node.',
     ['inputs', 'configurations'], 'all interfaces and node pairs, all values and derivatives, all equation names and orders in both regions, all contacts and interfaces sharing nodes',
     'No stable test creates an interface.',
     ['Equation/InterfaceEquation.cc', 'AutoEquation/InterfaceExprEquation.cc'],
     [('assembly of node pairs', 'Equation/InterfaceEquation.cc'), ('choice of the type', 'AutoEquation/InterfaceExprEquation.cc')],
     note='The choice of the active nodes (GetActiveNodes0/1) is used through a contract and checked natively, bounded.')
prop('S01', 'Arithmetic on model data is elementwise in every representation',
     'Copying, assigning, scaling, multiplying and adding node, edge, element-edge and interface data gives for every element exactly the elementwise result, whether each operand is a single uniform value, a reference to a model or a stored list, and whether or not it is zero, one or the same object. '
     'Reading, listing or writing one element changes no other element, and no operand or referenced model is changed. '
     'Work divided over threads processes every element exactly once, for every number of threads and task size.',
     ['inputs', 'configurations', 'schedules'], 'all lengths, all values, all representations of both operands, all thread counts and task sizes',
     'No stable test uses model data; whether a shortcut for zero, one or uniform operands is taken depends on the representation and not on the values.',
     ['models/ScalarData.cc', 'models/ParallelOpEqual.cc', 'models/ParallelOpEqual.hh'],
     [('operations and shortcuts', 'models/ScalarData.cc'), ('loops and division over threads', 'models/ParallelOpEqual.cc')],
     note='The path of OpEqualRun with more than one thread is checked natively and bounded (1 to 300 elements, 0 to 9 threads, small task sizes); the instantiations proved are those for double.')
prop('D01', 'Reading a model gives the last values written, in either precision',
     'After any history of writes (a uniform value, all values or one value, in double or extended precision), every read gives for every element the value last written, rounded only when read in double precision, and zero or one tests hold exactly when the data is a uniform zero or one. '
     'Values written to a model at a contact are stored at the contact nodes and zero elsewhere. '
     'A node, edge or element-edge model that is out of date is calculated exactly once before it is read, is not calculated when up to date, and every write signals the models that depend on it.',
     ['inputs', 'histories'], 'all histories of reads and writes, all values in both precisions, all lengths',
     'No stable test stores model data; a stale copy in the other precision shows only for particular orders of mixed reads and writes.',
     ['models/ModelDataHolder.cc', 'models/NodeModel.cc', 'models/EdgeModel.cc', 'models/TriangleEdgeModel.cc', 'models/TetrahedronEdgeModel.cc'],
     [('representation in two precisions', 'models/ModelDataHolder.cc'), ('calculation on demand', 'models/NodeModel.cc')],
     note='Rounding to double precision is an explicit uninterpreted symbol; the calculation of a model and Region::SignalCallbacks are under contract.')
prop('F01', 'Models derived from node models carry the right node at the right edge',
     'An edge model made from a node model holds for every edge the value at its first node and, in its second model, at its second node; on triangles and tetrahedra it also holds the value at the node, or the two nodes, across from each element edge. '
     'Averages over an edge are the arithmetic mean, the geometric mean, the slope or the negative slope of the two node values, and their derivative models are the exact derivatives with respect to each of the two nodes, through the derivative of the node model where one is named. '
     'Derived models have one value per edge or element edge, follow every change of the models they are computed from, and dependent models take their values from the model that owns them.',
     ['inputs', 'configurations', 'histories'], 'all meshes in 1D, 2D and 3D, all node values (positive ones for geometric means), all four averages, every order of reads and changes',
     'No stable test derives an edge model; a swapped node shows only on meshes whose edges are not oriented alike.',
     ['models/EdgeFromNodeModel.cc', 'models/TriangleEdgeFromNodeModel.cc', 'models/TetrahedronEdgeFromNodeModel.cc', 'GeomModels/AverageEdgeModel.cc', 'models/EdgeSubModel.cc', 'models/TriangleEdgeSubModel.cc', 'models/TetrahedronEdgeSubModel.cc', 'models/NodeSolution.cc'],
     [('node values on edges', 'models/EdgeScalarData.cc'), ('node values on element edges', 'models/TetrahedronEdgeFromNodeModel.cc'), ('averages and derivatives', 'GeomModels/AverageEdgeModel.cc')])
prop('F02', 'Element fields and averaged gradients follow from the mesh and the models',
     'The field in a triangle or tetrahedron solves, at each of its corners, for the vector whose projections on the edges that meet there are the edge values; an element edge has the corner fields of its first and second node as a pair, '
     'and as its field their average: weighted by the couplings of the other two edges in a triangle, plain in a tetrahedron. Derivatives follow the same rules, one for each node of the element in the order first node, second node, opposite nodes. '
     'Every component is stored under its own model name at its own element edge, and follows the models it is computed from. The gradient in an element reproduces the differences of the node values between its nodes, '
     'and vector_gradient gives each node the plain average over the edges (1D), triangles or tetrahedra that touch it, leaving out elements with a zero node value when asked to avoid zeros.',
     ['inputs', 'configurations', 'histories'], 'all meshes in 1D, 2D and 3D with any edge orientation, all edge, element and node values, first and later calls',
     'No stable test builds an element field; swapped nodes or weights show only on unsymmetric meshes.',
     ['Geometry/TriangleElementField.cc', 'Geometry/TetrahedronElementField.cc', 'Geometry/GradientField.cc', 'GeomModels/VectorGradient.cc', 'models/TriangleEdgeFromEdgeModel.cc', 'models/TriangleEdgeFromEdgeModelDerivative.cc', 'models/TriangleEdgePairFromEdgeModel.cc',
      'models/TriangleEdgePairFromEdgeModelDerivative.cc', 'models/VectorTriangleEdgeModel.cc', 'models/TetrahedronEdgeFromEdgeModel.cc', 'models/TetrahedronEdgeFromEdgeModelDerivative.cc', 'models/TetrahedronEdgePairFromEdgeModel.cc',
      'models/TetrahedronEdgePairFromEdgeModelDerivative.cc', 'models/VectorTetrahedronEdgeModel.cc'],
     [('element field', 'Geometry/TetrahedronElementField.cc'), ('gradients', 'GeomModels/VectorGradient.cc'), ('field models', 'models/TriangleEdgeFromEdgeModel.cc')],
     note='The dense solve (LAPACK or Eigen) is under contract: it returns the solution of the stored system when that is invertible. vector_gradient with avoidzero in 2D and 3D is checked bounded only.')
prop('T01', 'A solve succeeds only at a solution; integration follows its method',
     'A nonlinear solve solves in every iteration the residual of its method, reports success only when the errors of all devices and of the circuit are within the limits, and otherwise leaves the old solution and the old history. '
     'The coefficients of every method represent dQ/dt + I = 0 on the step: a constant charge gives no current, a linear charge is exact for all of them, a quadratic one for TR and BDF2. '
     'The earlier charges and currents enter every row with the coefficients of the method; a step is accepted only when every charge is within the relative limit of its projection; '
     'an accepted step shifts the history by one, a dc solution starts it, and no other stored vector changes.',
     ['inputs', 'histories', 'configurations'], 'all steps and gammas, all charges and currents, all numbers of rows, devices and iterations, all sequences of solves',
     'No stable test solves a system; coefficients agree by chance for usual values of gamma, and a wrong history shows only two steps later.',
     ['math/Newton.cc', 'math/Newton.hh', 'math/TimeData.cc', 'math/TimeData.hh'],
     [('nonlinear and transient solve', 'math/Newton.cc'), ('methods', 'math/Newton.hh'), ('history', 'math/TimeData.cc')],
     note='Assembly, the linear solver, and Device::Update are used by contract inside the solve (E01, C01, I01, U01 and M01 cover them). BDF2 needs 0 < gamma < 1. That the iteration converges is not claimed.')
prop('A01', 'The system that is solved is the sum of all assembled parts, in their rows',
     'The matrix and right hand side that a solve uses are the sum, each part exactly once, of: every contact and interface equation of every device in its own rows; every equation of every region, sent to the rows that the contacts and interfaces of its device name '
     '(dropped, moved, or moved and copied); every circuit element in the rows of the circuit; and the custom equations. Residuals enter with a minus sign, and everything is scaled by the same real or complex factor. '
     'A load of the matrix, of the right hand side or of the permutations alone adds nothing it was not asked for. '
     'A small-signal system is the steady state plus 2 pi f j times the time derivatives, its right hand side has the source of every element in its own row, a noise solve has a one in the row of the output; and each solution reaches every device and the circuit exactly once.',
     ['inputs', 'configurations'], 'all numbers of devices, regions, contacts, interfaces, equations, circuit elements and rows, all entries, permutations, scales, offsets and frequencies',
     'No stable test assembles a system; a part that is loaded twice, lost or shifted shows only for particular combinations of devices, circuits and permutations.',
     ['math/Newton.cc', 'Geometry/Device.cc', 'Geometry/Region.cc', 'Geometry/Contact.cc', 'Geometry/Interface.cc', 'Equation/EquationHolder.cc', 'Equation/ContactEquationHolder.cc', 'Equation/InterfaceEquationHolder.cc', 'Circuit/data/InstanceKeeper.cc'],
     [('system load', 'math/Newton.cc'), ('walks over devices, regions, contacts and equations', 'Geometry/Device.cc'), ('extended equations in a double system', 'Equation/EquationHolder.cc'), ('circuit walk', 'Circuit/data/InstanceKeeper.cc')],
     note='What an equation contributes is E01, C01 and I01. The entries of custom equations come from Python and are an assumed contract (AssembleTclEquations). Conversion from extended to double precision is treated as exact.')

prop('K01', 'Circuit elements obey their laws; circuit solutions follow their updates',
     'Every resistor, capacitor, inductor, voltage and current source contributes exactly its law: the current (v1 - v2)/R, charge C (v1 - v2), flux L I with branch voltage v1 - v2, or the value of its source leaves one node and enters the other '
     '(so that charge is conserved), with exactly the derivatives of these, scaled as asked, whether or not a matrix is wanted; ground has no row and is at zero; a small-signal source sits in the row of its voltage source. '
     'A new element is connected to the nodes of the given names, and changing one of its parameters changes just that one. '
     'A node keeps its kind once made. A solve moves every node other than ground by its own row of the update (damped where asked), leaves all other solutions alone, and names and aliases address the value of their own node.',
     ['inputs', 'configurations', 'histories'], 'all values of elements, all connections (ground and shorts included), all solutions, updates, numbers of nodes, names and aliases',
     'No stable test has a circuit; a wrong stamp shows only for particular connections (ground on one side, no matrix) or values, and a wrong update only for particular sizes, signs and aliases.',
     ['Circuit/models/ideal/IdealResistor.cc', 'Circuit/models/ideal/IdealCapacitor.cc', 'Circuit/models/ideal/IdealInductor.cc', 'Circuit/models/sources/IdealVoltage.cc', 'Circuit/models/sources/IdealCurrent.cc', 'Circuit/data/NodeKeeper.cc', 'Circuit/data/InstanceModel.cc'],
     [('ideal elements', 'Circuit/models/ideal/IdealCapacitor.cc'), ('sources', 'Circuit/models/sources/IdealVoltage.cc'), ('nodes and solutions', 'Circuit/data/NodeKeeper.cc'), ('element nodes', 'Circuit/data/InstanceModel.cc')],
     note='Precondition: no circuit node of update type POSITIVE (the command never makes one; its loop of halvings need not end). Signals have the value that was set (time functions of Pulse are not used by any command). The numbering of the nodes is N01, the walk over the elements A01.')

prop('R01', 'A failed solve leaves every solution as it was',
     'What a solve saves before its first iteration is all of what it may change: for every device, every region and every solution variable, the values at that time, in the precision of the model, under a name of their own, and the values of all circuit nodes. '
     'When the solve fails, exactly these values come back; no other model is touched, neither by saving nor by going back, whether or not an earlier solve has left saved values behind.',
     ['inputs', 'configurations', 'histories'], 'all numbers of devices, regions and variables, all values, both precisions, all earlier solves and variables added between them',
     'A solution that is not restored (or is rounded, or stems from an earlier solve) shows only after a failed solve, for particular regions or for models stored in a particular way; no stable test has a failing solve.',
     ['Geometry/Region.cc', 'Geometry/Device.cc', 'math/Newton.cc'],
     [('save and go back', 'Geometry/Region.cc'), ('all regions', 'Geometry/Device.cc'), ('all devices and the circuit', 'math/Newton.cc')],
     note='That the solve goes back exactly when it fails is T01; that a circuit solution is copied as a whole is K01. All solutions of a region have the precision the region is set to (extended_model is not changed after they were made). A fatal error (exception) is no failed solve in this sense.')
