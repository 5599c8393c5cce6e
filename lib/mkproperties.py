import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
LA='pygfunction/load_aggregation.py'; NW='pygfunction/networks.py'; PI='pygfunction/pipes.py'
BF='pygfunction/borefield.py'; BH='pygfunction/boreholes.py'; GF='pygfunction/gfunction.py'
BS='pygfunction/solvers/_base_solver.py'; DE='pygfunction/solvers/detailed.py'; SI='pygfunction/solvers/similarities.py'; EQ='pygfunction/solvers/equivalent.py'
HT='pygfunction/heat_transfer.py'; UT='pygfunction/utilities.py'; ME='pygfunction/media.py'

p('C01','Load aggregation accounts for every past load exactly once',
 'In each load aggregation scheme, after any number of time steps, the aggregation cells cover the elapsed load history contiguously, from the most recent load to the oldest, and every past load is represented exactly once: MLAA and Liu replace consecutive blocks of past loads of the documented sizes by their means, and Claesson-Javed moves at each step a fraction 1/width of each cell to the next, so that the total energy of the cells equals the energy of all past loads until it leaves the last cell. The predicted temperature variation is exactly the superposition of these aggregated loads with the thermal response factors of their time intervals.',
 ['histories','configurations'],'for every scheme, every cell configuration (cells per level; N0..N3; N1..N3 and W1..W3 with at least one cell of each width kept back), every horizon and every load history up to the horizon, with time steps that carry a load, several loads, or none',
 'The tests compare one 20-year-like load profile per scheme with stored end results, in one default cell configuration each; a cell created one step late, a block that misses a load or counts it twice only changes such results within the scheme approximation error or not at all in short runs.',
 [LA,UT],[('next_time_step shifts and merges aggregation cells',LA),('temporal_superposition',LA),('time_ClaessonJaved builds the cells',UT)],
 [('q_b / Q0..Q4','aggregated loads',LA),('_n0.._n4','cells in use',LA)],['temporal_superposition() with unit response factors'])
p('C02','Load aggregation simulations are linear, causal state machines',
 'During a simulation, the temperature variation of each source is the sum over all sources of the superposition of their own load histories with the pair response factors, it depends linearly on the loads, and it is not affected by how often it is queried, nor by later changes to the arrays passed to or obtained from the simulation. A load set several times in a time step counts only with its last value, a time step in which no load is set counts as zero load, and a constant load from the start reproduces the load times the response factor at the current time when no aggregation error arises.',
 ['histories','configurations'],'for every scheme, number of sources, interleaving of set/query/advance calls, and re-initialization of the response factors during a simulation',
 'Tests always call advance, set, query once each per step with one or a few sources; other call orders and asymmetric cross-source response factors are not sampled.',
 [LA],[('set_current_load / next_time_step / temporal_superposition / initialize',LA)],
 [('current load','overwritten by the last set in a step',LA)],['temporal_superposition()','get_thermal_response_factor_increment()'])
p('C03','Bore connectivity is accepted exactly when it forms circuits, and routes fluid',
 'A network is constructed exactly when its connectivity vector describes circuits fed by the network inlet: every entry is -1 or the index of a borehole, no borehole feeds two others, and no circuit is closed on itself; any other vector is rejected. In an accepted network, in both flow directions, every borehole receives the fluid that leaves the borehole upstream (or the network inlet fluid), carries the flow rate of its own circuit, and the boreholes at the ends of the circuits are the outlets that mix in proportion to their flow rates.',
 ['configurations'],'for every connectivity vector of every size (including out-of-range, self-referencing and cyclic vectors) and every form of mass flow rate input (total, per circuit)',
 'Tests use four fixed connectivities; acceptance and path construction quantify over all vectors.',
 [NW],[('_verify_bore_connectivity, _find_inlets_outlets, _find_path_to_inlet',NW),('_format_inputs distributes flow rates',NW)],
 [('c','connectivity vector',NW),('iInlets/iOutlets/iCircuit','topology',NW)],['Network(...)','get_inlet_temperature'])
p('C04','Network temperatures and heat rates satisfy mass and energy balances',
 'For any network, flow rates, segments and wall temperatures, each borehole is supplied with the fluid that leaves the borehole upstream (or the network inlet), and the network outlet is the mixture of all circuit outlets weighted by their own flow rates. Borehole heat rates equal flow rate times heat capacity times their inlet-outlet difference, they sum to the network heat rate and to the network balance between inlet and outlet, and the inlet temperature obtained for a given total heat rate produces that heat rate; network results are numbers when the inlet temperature (or total heat rate) is a number. With a uniform wall temperature, the effective network resistance times the heat rate per unit of total length is the difference between the mean of the inlet and outlet temperatures and the wall temperature.',
 ['inputs','configurations'],'for every accepted connectivity, pipe type mix, total or per-circuit flow rates (positive; also all circuits reversed), heat capacity form, segment discretization and wall temperatures',
 'Tests compare with stored numbers for a few networks whose circuits carry equal or proportionate flows; balances between different query methods are not asserted.',
 [NW,PI],[('coefficients_* chain boreholes and mix outlets',NW),('get_* evaluate the linear relations',NW)],
 [],['get_inlet_temperature','get_outlet_temperature','get_borehole_heat_extraction_rate','get_fluid_heat_extraction_rate','get_network_*'])
p('C05','Pipe and network results do not depend on the history of queries',
 'The result of any query of a pipe or network depends only on its current parameters and the arguments of the query: no earlier query (other flow rates, heat capacities, segment numbers or ratios), and no change made by the caller to the arguments pipes were built from, to flow rates, heat capacities or segment ratios passed to earlier queries, or to the coefficients and temperatures they returned, changes it. After thermal resistances are updated, results are those of a newly built object with the new resistances.',
 ['histories'],'for every sequence of queries and updates with arguments drawn from any set, including in-place modification of argument arrays between queries',
 'Stored-coefficient reuse only goes wrong on particular sequences of arguments; tests build a fresh object for each query.',
 [PI,NW],[('_check_coefficients / _initialize_stored_coefficients / nPrevious storage of last coefficients',PI),('same for networks',NW),('update_thermal_resistances resets stored coefficients',PI)],
 [('stored coefficients','last-query memo with its arguments',PI)],['all coefficient and get_* methods'])
p('C06','Borehole heat exchangers conserve energy for any pipe and flow',
 'For every pipe type the heat extraction rates of borehole segments sum to the flow rate times the heat capacity times the inlet-outlet difference, the inlet temperature obtained for a given total heat rate gives that total heat rate, and fluid temperature profiles start at the inlet temperature, end at the outlet temperature and meet at the bottom of the borehole. With a uniform wall temperature (and positive delta-circuit resistances) the outlet lies between the inlet and wall temperatures, and results do not depend on the discretization into segments. The effective resistance (by the method or the deprecated function) relates the heat rate to the average of inlet and outlet temperatures, and the local resistance is that of all pipes in parallel to the borehole wall. Results are numbers or arrays like the argument they correspond to (the inlet temperature or heat rate for fluid results, the wall temperature for segments).',
 ['inputs','configurations'],'for every pipe type (single, multiple series and parallel, independent, coaxial both arrangements), flow magnitude and direction per circuit, reversible or not, segment numbers and ratios, and wall temperatures',
 'Tests compare stored values at a handful of flow rates; mixed flow directions in independent pipes, unequal segment ratios and negative flows are sparsely sampled.',
 [PI],[('_continuity_condition_base, _general_solution, _F_*',PI),('reversible_flow handling',PI)],
 [],['get_outlet_temperature','get_inlet_temperature','get_temperature','get_borehole_heat_extraction_rate','get_fluid_heat_extraction_rate'])
p('C07','Thermal resistances reflect current parameters, isolated between objects',
 'The resistances of a pipe always correspond to its current pipe geometry and current fluid-to-pipe resistances: equal parameters give equal resistances regardless of what other pipes were built or updated before, and updates return to the original values when undone. Arrays given to or obtained from one object never alias the resistances of another object.',
 ['histories'],'for every sequence of constructions, updates and visualizations over any number of pipe objects, with caller-side modification of arrays',
 'The memoization of resistances is global, so faults need particular sequences across objects that tests, which build one object per case, do not form.',
 [PI],[('thermal_resistances memoization (_memoize_…)',PI),('update_thermal_resistances',PI)],
 [('memo of resistances','keyed on geometry and parameters',PI)],['pipe._Rd through public results','thermal_resistances()','multipole()'])
p('C08','Pipe geometries are accepted exactly when physically realizable',
 'A pipe is constructed exactly when its pipes fit inside the borehole without overlap and its dimensions and properties are physically valid; otherwise construction fails with an error. The resistance network of accepted geometries is symmetric and reciprocal: permuting, rotating or mirroring the pipes in the borehole permutes the resistances accordingly.',
 ['inputs','configurations'],'for every pipe placement, radii and property values on and around the acceptance boundary, for all pipe types',
 'Tests construct only valid pipes, in one fixed orientation.',
 [PI],[('_check_geometry',PI),('multipole / thermal_resistances',PI)],[],['pipe constructors','thermal_resistances()'])
p('C09','Borefields behave as values: indexing, algebra, equality and round trips',
 'A borefield always represents a fixed sequence of boreholes: indexing, slicing, iteration, concatenation, equality and length agree with the list of its boreholes, and conversion to boreholes or to a file and back gives an equal field. No operation (including g-function evaluation and visualization) modifies its operands, nor do later changes to the arrays and boreholes it was created from or converted to, dimensions given as scalars or arrays are equivalent, and operands of other types are rejected.',
 ['histories','inputs'],'for every sequence of operations (index, slice, mask, add, radd, compare, evaluate, visualize, round trip) on fields of any size with uniform or individual dimensions',
 'Tests apply single operations to three fixed fields; sequences of operations and mixed dimension/broadcast forms are not explored.',
 [BF,BH],[('Borefield.__getitem__/__add__/__eq__/from_boreholes/to_boreholes/from_file/to_file',BF)],
 [('x,y,H,D,r_b,tilt,orientation arrays','the field',BF)],['Borefield public methods'])
p('C10','Field layout generators place every borehole as documented',
 'Each layout generator (rectangle, staggered, dense, L, U, box, circle) places the documented number of distinct boreholes at the documented positions, listed row by row (around the circle for circular fields), for every combination of counts including one- and two-wide fields. All boreholes share the given dimensions; with a tilt they lean away from the origin (by default the center of the layout), and only boreholes at the origin stay vertical; the list-returning functions place the same boreholes as the borefield class. Orientations named after cardinal points are those of the sixteen winds, counter-clockwise from the east, and boreholes lean that way; other names are rejected.',
 ['configurations'],'for every N_1, N_2 or N, spacings, inclusion of last boreholes, tilt and origin',
 'Tests sample six or so sizes without tilt; degenerate sizes with tilt and custom origins are untested.',
 [BF,BH],[('Borefield.*_field class methods',BF),('boreholes.*_field functions',BH)],[],['returned x, y, tilt, orientation, order'])
p('C11','Duplicate detection and removal keep one of each borehole position',
 'Duplicate search reports exactly the pairs of boreholes closer than the largest borehole radius, each once, and removal returns exactly the boreholes that do not duplicate an earlier one: one borehole (the first) of every distinct position, in the original order, without modifying the input field.',
 ['inputs'],'for every multiset of positions, with clusters of any multiplicity, in any order, for lists and borefields',
 'Tests use one field with single pairs of duplicates; clusters of three or more, or interleaved clusters, are not sampled.',
 [BH,BF],[('find_duplicates, remove_duplicates',BH)],[],['find_duplicates','remove_duplicates'])
p('C12','Borehole segmentation tiles the borehole exactly',
 'Segments of a borehole cover its length exactly once, in order, on its axis, with the radius, tilt and orientation of the borehole, for any segment ratios. The expanding-mesh generator returns positive ratios that sum to one, are symmetric, start and end with the requested end length ratio and change by a constant factor towards the middle, for any number of segments and any end length ratio below one half. Equivalent boreholes stand for all boreholes they are made of, however they are stated: their positions, segments and distances to other equivalent boreholes are those of each of these boreholes, and their unique distances are, in increasing order, the averages and numbers of all distances lumped from the smallest up to the relative tolerance.',
 ['inputs','configurations'],'for every number of segments, ratios, lengths, inclination and end length ratio',
 'Tests check a few discretizations of one borehole for stored coordinates.',
 [BH,UT],[('segments, _segment_edges, _segment_midpoints',BH),('segment_ratios',UT)],[],['Borehole.segments','utilities.segment_ratios'])
p('C13','g-functions do not depend on borehole order, position or direction',
 'For every solver and boundary condition (with similarity tolerances that merge only equal distances), the g-function of a field is unchanged when the boreholes are listed in any other order (with the network connectivity, pipes and per-circuit flows permuted alongside), and when the whole field is translated, rotated or mirrored. Heat extraction rates and wall temperatures of individual boreholes are permuted accordingly.',
 ['inputs','configurations'],'for every field (vertical, inclined, mixed dimensions, unequal segment numbers), every permutation and rigid motion, and every solver and boundary condition',
 'Tests compute each field in a single order and position.',
 [SI,EQ,DE,BS,HT],[('similarity grouping',SI),('equivalent grouping',EQ)],[],['gFunction.gFunc','profiles'])
p('C14','Similarities and equivalent solvers agree with the detailed solver',
 'Whenever similarity tolerances only merge truly equal distances, the similarities solver gives the same g-function, heat rates and temperatures as the detailed solver, for any field. The equivalent solver agrees with it when its groups hold boreholes that are truly alike by symmetry (or hold a single borehole each).',
 ['inputs','configurations'],'for every field including inclined boreholes of any relative orientation, mixed lengths, depths and radii, unequal segment numbers and ratios, coincidental equal distances, all boundary conditions',
 'Tests compare each solver with its own stored values on a few fields, in which wrongly merged pairs may not occur.',
 [SI,EQ,DE,HT],[('find_*_pairs, _compare_*, group of similar pairs',SI),('find_groups, borehole-to-borehole distances',EQ)],
 [('pair groups','pairs sharing one response factor',SI)],['gFunction.gFunc','profiles'])
p('C15','g-function solutions satisfy their boundary conditions and heat balance',
 'For each boundary condition the solution satisfies its definition at every time: heat extraction rates average to one over the total length; with uniform wall temperature all segments have the g-function as temperature; with uniform heat rates every rate is one; with a network, segment heat rates are those the network produces from a single inlet temperature for the wall temperatures. The quantities shown by the visualization and profile queries are those of this solution.',
 ['inputs','configurations'],'for every field, segment discretization, boundary condition, solver, network topology, flow rate and time',
 'Tests compare only the resulting g-function values.',
 [BS,DE,SI,EQ,GF],[('solve assembles and solves the system at each time',BS),('_heat_extraction_rates/_temperatures/_profiles',GF)],
 [('Q_b, T_b','solution at each time',BS)],['gFunction.gFunc','visualize_* data'])
p('C16','g-function values depend only on the requested times, not on history',
 'For linear interpolation of the load response, the g-function (and heat extraction rates, wall temperatures and profiles) at a time depends only on the requested times up to it: later times in the list do not change earlier values, a scalar time and an array of one value give equal values, re-evaluating the same object (or other objects that share its boreholes, network and options) over any sequence of lists gives the values of a new object, and inputs are left unchanged. For times up to the threshold of the line-source solution (by default r_b^2/(25 alpha) for the largest radius, or as set by the user; none if set to zero), g-functions and temperatures are proportional to time (zero at time zero), heat extraction rates go linearly from one to their value at the threshold, and all are continuous at the threshold. Repeated times in a list have equal values, and do not change those of others. Decreasing lists of times are rejected.',
 ['histories','inputs'],'for every non-decreasing list of times (below, across, at and above the threshold), sequences of evaluations on one object, solvers and boundary conditions',
 'Tests evaluate each object once on one grid with all times above, and one below, the threshold.',
 [GF,BS],[('evaluate_g_function',GF),('linear threshold handling, load_history_reconstruction',BS)],[],['gFunction.evaluate_g_function','gFunction.gFunc'])
p('C17','Variable mass flow rate g-functions are consistent with constant flow',
 'For networks with variable flow rates, the diagonal responses equal the g-functions of the constant flow rates, each off-diagonal response (i, j) is the effective borehole wall temperature at flow rate i for the wall temperatures caused by heat extraction at flow rate j, permuting the list of flow rates permutes rows and columns of the result, and repeated flow rates give repeated rows and columns. Heat extraction rates and temperatures of each flow rate are those of the constant flow rate. This holds at all times, below and above the linearization threshold, and for histories of evaluations.',
 ['inputs','configurations'],'for every list of total or per-borehole flow rates, network and solver',
 'Tests compare one list of flow rates with stored values.',
 [BS,GF],[('variable mass flow rate branch of solve',BS)],[],['gFunction.gFunc of shape (n,n,nt)'])
p('C18','Finite line source factors are reciprocal, additive and invariant',
 'The finite line source response of any two boreholes is reciprocal (weighted by lengths), additive when boreholes are split into segments, the sum of its real and image parts, invariant under horizontal translation, rotation and reflection and under scaling of lengths with matching scaling of times, and non-decreasing in time. Every way to request it (times as numbers of any kind, one by one or in arrays of any order; objects or fields, similar or multiple segments, exact or approximate; infinite times for the steady state) gives the same values, and inclined formulas agree with vertical ones as the tilt vanishes.',
 ['inputs'],'for every pair of boreholes (vertical and inclined), time and method of evaluation',
 'Tests compare stored values at a few points.',
 [HT],[('finite_line_source, finite_line_source_vectorized, *_equivalent_boreholes_*, *_inclined_*',HT)],[],['finite_line_source','finite_line_source_vectorized','finite_line_source_inclined_vectorized'])
p('C19','Time grid generators produce complete, increasing grids',
 'Each time-grid generator returns strictly increasing times that start with one time step, and reach the maximum time. The first two stop as soon as they do, and consist of whole numbers of time steps: Claesson-Javed cells double in width after each complete level of cells, Marcotte-Pasquier cells double in width from each cell to the next after the non-expanding cells. The geometric grid has the requested number of values, whose widths expand by a constant factor from one time step and which end exactly at the maximum time if that exceeds the requested number of time steps, and are whole multiples of the time step otherwise.',
 ['inputs'],'for every time step, maximum time, cells per level and number of values',
 'Tests compare a stored grid for one set of parameters.',
 [UT],[('time_ClaessonJaved, time_MarcottePasquier, time_geometric',UT)],[],['returned arrays'])
p('C20','g-functions from static parameters equal the assembled model',
 'The g-function created from static parameters equals that of the borefield, pipes, fluid and network assembled by hand from the same parameters, for every pipe type and boundary condition, and invalid or missing parameters are rejected.',
 ['configurations'],'for every pipe type, boundary condition, flow rate (of either sign), layout of connections, fluid and temperature',
 'Tests compare with stored values at the default temperature for one configuration per pipe type.',
 [GF],[('from_static_params',GF)],[],['gFunction.from_static_params(...).gFunc'])
p('C21','Pipe flow relations and local temperatures are consistent',
 'The friction factor is 64/Re in laminar flow and solves the Colebrook-White relation otherwise; friction factors, convective coefficients and fluid-to-pipe resistances depend on the flow rate only through its magnitude; the Nusselt number has the documented laminar and turbulent values, does not decrease with the flow rate, and is continuous across the documented limits of the regimes (Re of 2300 and 4000). The resistances between fluids and pipes are those of the films and pipe walls in series, of the flow each pipe carries, for every pipe type. Temperatures evaluated around pipes with the multipole method are those of the thermal resistances: the pipe temperatures within pipes, continuous across the borehole wall, with the borehole wall temperature on average, linear in the heat rates. Derived properties of fluids (kinematic viscosity, volumetric heat capacity, Prandtl number) follow from the others, names of mixtures have aliases, and tables of fluids list every property of each.',
 ['inputs'],'for every flow rate, pipe radius, roughness and fluid properties, including values next to the regime boundaries',
 'Tests sample one point per regime.',
 [PI,ME],[('fluid_friction_factor_circular_pipe, convective_heat_transfer_coefficient_*',PI)],[],['returned values'])
p('C22','g-functions do not depend on how a case is stated',
 'The functions uniform_heat_extraction, uniform_temperature, equal_inlet_temperature, mixed_inlet_temperature, and the method Borefield.evaluate_g_function return the g-function of the class for the boundary condition, solver, flow rates, heat capacity and options they are given. Flow rates and heat capacities given to the class take precedence over those stored in a network, which are used when none is given, whatever kind of number they are and whether they are totals or given by circuit; options left out have their documented defaults; boreholes may be given alone, in lists or in fields. The solver of equivalent boreholes gives way to that of similarities whenever boreholes of a network are in series, differ in pipes (type, connections, resistances) or in flow rates. Requests that are incomplete, contradictory or invalid (and inclined boreholes with the solver of equivalent boreholes) are rejected, nothing given by the caller is changed, and progress is printed only when it is asked for.',
 ['configurations','inputs','histories'],'for every way to state a case, and every sequence of requests over the same network',
 'Tests use the class with flow rates stored as float, and call none of the functions.',
 [GF,BS],[('_format_inputs, _check_inputs, uniform_heat_extraction, uniform_temperature, equal_inlet_temperature, mixed_inlet_temperature',GF),('_check_inputs',BS)],[],['gFunction.gFunc','values returned by the functions'])
p('C23','Figures show the solution, boreholes and cases they are asked for',
 'The figures of g-functions show the g-function, heat extraction rates, borehole wall temperatures and their profiles of the last evaluation: of the boreholes that are asked for (all by default) and at the time that is asked for (the last by default), averaged over the length of each borehole for curves over time, by borehole for profiles along depth, with one figure, named after its flow rate, for each of the variable mass flow rates that are asked for, and the color of a borehole in curves is its color on the map of the field. Figures change nothing: neither the solution nor other figures depend on which figures were drawn before. Figures of borefields show every borehole at its position, tilt and depth, numbered in order, in every view that is asked for; figures of pipes show every pipe with its inner and outer radius at its position, and the wall of the borehole.',
 ['histories','inputs','configurations'],'for every field, solver, boundary condition, list of flow rates, selection of boreholes, time and sequence of evaluations and requests of figures',
 'Tests do not look at the data of any figure.',
 [GF,BF,PI,BH],[('visualize_g_function, visualize_heat_extraction_rates, visualize_temperatures, *_profiles, _heat_extraction_rates, _temperatures',GF),('visualize_field',BF),('visualize_pipes',PI)],
 [('solution','solution of the last evaluation',GF)],['data of lines and colors of the returned figures'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import re
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
