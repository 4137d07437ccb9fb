"""Regenerates /verif/properties.jsonl (the one place where the property texts live)."""
import json, os
B='sympl/_core/base_components.py'; G='sympl/_core/get_np_arrays.py'; K='sympl/_core/backend.py'
W='sympl/_core/wildcard.py'; R='sympl/_core/restore_dataarray.py'; CP='sympl/_core/combine_properties.py'
CO='sympl/_core/composite.py'; TS='sympl/_core/tendencystepper.py'; ST='sympl/_core/state.py'
TR='sympl/_core/tracers.py'; U='sympl/_core/units.py'; DA='sympl/_core/dataarray.py'; UT='sympl/_core/util.py'
CN='sympl/_core/constants.py'; TM='sympl/_core/time.py'; WR='sympl/_core/wrappers.py'; BA='sympl/_components/basic.py'
SP='sympl/_components/timesteppers.py'; NC='sympl/_components/netcdf.py'; PL='sympl/_components/plot.py'; IN='sympl/_core/init_np_arrays.py'

P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=None
    assert len(title)<=80,(id,len(title))
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

p('C01','Components receive inputs in the declared units, axis order and shape',
 "For every valid state, the arrays handed to a component's computation hold exactly the state's values converted to the declared units, with axes in the declared order, broadcast along declared dimensions that the quantity lacks, and with all undeclared dimensions collapsed into the wildcard axis in one order common to all inputs of the call. Each array arrives under the declared alias (or else the quantity name), and the state's time is passed on unchanged. This holds whatever the dimension order, length (including 1 and equal lengths), memory layout, dtype, coordinates or units of the quantities in the state.",
 ['inputs','configurations'],"all dims declarations (with and without a wildcard), all dimension subsets and orders of the quantities in the state, dimension lengths, memory layouts, dtypes and convertible unit pairs",
 "Tests try a few dozen hand-picked declarations, mostly single quantities and one unit pair; the declaration x state space is a product that only enumeration covers.",
 [G,K,W,U,B],[('extraction of declared arrays',G),('unit conversion, transposition and broadcast',K),('wildcard matching and flattening',W)],['array_call of a recording component'])
p('C02','Component outputs are labelled with the declared units and the right dimensions',
 "For every component and valid state, each returned tendency, diagnostic and new-state quantity carries the declared units and the declared dimensions, with a wildcard expanded back to the state's own dimensions, so that an elementwise computation yields at every coordinate the value computed from the inputs at that same coordinate. A result returned under the full name, its alias or the alias of the same-named input is treated the same. A returned array whose shape contradicts the declared dimensions is refused rather than mislabelled.",
 ['inputs','configurations'],"all input/output dims declarations, state dimension orders, aliases and component kinds within the bounds; all wrong shapes adjacent to the right one",
 "Tests check labels for a few fixed shapes; swapped or mis-expanded wildcard axes are invisible where lengths coincide or values are uniform.",
 [R,W,B,K],[('restoration of labelled arrays',R),('wildcard expansion',W)],['return values of component calls'])
p('C03','Invalid states are refused before any computation, valid ones accepted',
 "A component call is refused with an exception, before its computation runs, whenever the state lacks a required quantity, or a required quantity lacks units, has units not convertible to the declared ones, has a dimension the declaration does not admit, or disagrees with another input about the length of a dimension. Missing quantities, missing or inconvertible units, unexpected dimensions and conflicting lengths are reported as an invalid state. Every state without such a fault is accepted.",
 ['inputs','configurations'],"all single and double faults over all component kinds and small declarations, and all fault-free states",
 "Tests inject one fault at a time in one component kind with one declaration; they do not establish that no admissible state is refused nor that the computation never ran.",
 [B,K,W,DA],[('check of required quantities',B),('dimension and length checks',W),('unit checks',K)],['exception type; call counter in array_call'])
p('C04','A component may return exactly the quantities it declared',
 "A call whose computation leaves out a declared tendency, diagnostic or output fails with the missing-output error, and one that returns an undeclared quantity fails with the extra-output error, for every component kind and every subset of quantities returned. Each declared quantity may be given under its name or under a declared alias. A call whose returned quantities match the declaration succeeds and returns exactly the declared quantities.",
 ['inputs','configurations'],"all subsets of {declared names, aliases, undeclared names} that a computation may return, for every kind of component and result dictionary",
 "Tests try one missing and one extra quantity; combinations (alias of one quantity masking another, extra together with inherited names) are not sampled.",
 [B,R],[('tendency, diagnostic and output checks',B)],['exception type and returned keys'])
p('C05','Inconsistent component declarations are refused at construction',
 "Constructing a component is refused if a property declaration is absent, and refused with the invalid-declaration error whenever a declaration is not a dictionary, a quantity lacks units, lacks dims (outputs may inherit the dims of a same-named input), two quantities in one declaration share an alias, or the units of an output, diagnostic or tendency are incompatible with those of the same-named input. Every consistent declaration is accepted, and a component whose own initializer never ran the base initializer refuses every call with a RuntimeError, whatever other instances exist.",
 ['configurations'],"all declarations over a small alphabet of quantities, faults and component kinds",
 "Tests cover one instance of each fault per class; masking between faults and acceptance of all consistent declarations is not covered.",
 [B,U],[('declaration checks at construction',B)],['exception from constructor / call'])
p('C06','Calls and stores never alter the caller\'s data or earlier results',
 "Calling a component, composite, wrapper or time stepper on a state, or storing a state in a monitor, changes neither the values, dtype, dimensions, units, attributes nor the set of quantities of that state, and alters no result returned by an earlier call. Calling a stateless component again on an equal state gives equal results. The only exception is the leapfrog stepper, whose documented time filter updates the state it is given.",
 ['histories','inputs'],"all call sequences up to the bound over every component kind, wrapper, composite, stepper and monitor, on states whose arrays may be passed through without copying",
 "Tests compare a single call's inputs for a few classes; aliasing shows only over multi-call histories in which one call's result feeds another.",
 [B,UT,WR,SP,ST,CO,NC,PL,BA],[('copy before in-place addition',UT),('shallow copy of the state',SP),('deep copy for plotting',PL)],['deep fingerprints of state and earlier results before/after'])
p('C07','Adams-Bashforth steps follow the scheme over every history',
 "For every order from 1 to 4 and every history of steps, the new value of each stepped quantity is the old value plus the timestep times the Adams-Bashforth combination of the current and preceding tendencies, using lower orders until enough tendencies have accumulated. Tendencies (the current one and remembered ones) are converted to the units of the state being stepped. A step with another timestep than the first is refused, and a refused or failed step leaves the remembered tendencies as they were.",
 ['histories','fault_sequences'],"all step histories up to the bound over tendency values, state unit switches, wrong timesteps and failing components, for all orders",
 "Tests run up to four uniform steps with constant tendency units; histories mixing failures, unit switches and distinct tendencies are not reached.",
 [SP,TS,UT],[('tendency history',SP),('scheme coefficients',SP),('unit conversion of tendencies',SP)],['new_state of each step'],[('tendency history','remembered tendencies, oldest first',SP)])
p('C08','Leapfrog steps and their time filter follow the scheme over every history',
 "For every filter strength and alpha and every history, the first step is a forward Euler step and each later one is the leapfrog step from the filtered previous values using the current tendency over twice the timestep, after which the current and new values are shifted by alpha and (alpha-1) times half the strength times the second difference. The filtered current values are written back to the state that was passed in, whose other quantities stay unchanged. A different timestep is refused, and a refused or failed step leaves the stepper's memory as it was.",
 ['histories','fault_sequences'],"all step histories up to the bound over tendency values, filter parameters, unit switches, wrong timesteps and failing components",
 "Tests run two or three steps with fixed parameters; dependency on the whole history and on faults in the middle is not explored.",
 [SP,TS],[('stored previous state',SP),('Robert-Asselin-Williams filter',SP)],['input state and new_state of each step'])
p('C09','SSP Runge-Kutta steps equal the Shu-Osher scheme',
 "For two and three stages and any components, the new state equals the Shu-Osher strong-stability-preserving Runge-Kutta combination of forward Euler stages, where each stage re-evaluates the tendencies on the stage's state. The diagnostics returned are those of the first evaluation, on the input state. No memory is carried from one step to the next, and unsupported stage counts are refused.",
 ['histories','inputs'],"all component right-hand sides, initial values, step sizes and step sequences over the alphabet",
 "Tests use constant tendencies or compare with a mock; for state-dependent right-hand sides the stage combination is only sampled.",
 [SP,ST,TS],[('stage combination',SP),('state algebra',ST)],['new_state, diagnostics, recorded stage states'])
p('C10','Time steppers change only the quantities they step',
 "For every time stepper, the new state contains every quantity of the input state; each quantity without a tendency is carried over identical in value, dtype, dimensions and attributes, including the time, and each stepped quantity keeps the units and dimension order it had in the state (extended only by dimensions of its tendency which it lacks). The returned diagnostics are exactly those the wrapped components compute from the input state. Quantities not used by any component, of any type, never make a step fail.",
 ['inputs','histories'],"all steppers and orders x component lists x extra quantities of every dtype/shape x step numbers",
 "Tests use one float quantity besides the stepped one and look at a single step.",
 [TS,SP,ST],[('copying of untouched quantities',ST),('diagnostics passthrough',TS)],['new_state and diagnostics'])
p('C11','Composites sum tendencies and merge diagnostics independent of order',
 "A composite's tendencies are, for each quantity, the sum of its components' tendencies in a common unit, and its diagnostics are the union of theirs, each evaluated on the same input state; the result does not depend on the order of the components. Implicit components receive the timestep, and a monitor composite stores each state in every monitor once, in order. Two components producing the same diagnostic are refused with the shared-key error, and components of the wrong kind with a type error.",
 ['inputs','configurations'],"all component lists up to the bound over kinds, shared quantities, units, dims subsets and orders, and all permutations",
 "Tests use one or two components of equal units and dims in one order.",
 [CO,UT],[('in-place addition with unit handling',UT),('shared key check',UT)],['returned tendencies and diagnostics'])
p('C12','Combined input declarations are sound, complete and order-independent',
 "Components can be combined in a composite or time stepper exactly when for each quantity they share the units are compatible and the dimension declarations can be met together: equal sets of dimensions without wildcards, or a wildcard declaration whose named dimensions all occur in the other; otherwise the combination is refused as an invalid declaration. The outcome does not depend on the order of the components. Every state that satisfies the combined declaration is accepted by every component in it.",
 ['configurations','inputs'],"all pairs and triples of dims/unit declarations over a small alphabet, all orders, hash seeds, and all states over the dims",
 "Tests list some pairs of dims in one order each; asymmetric or unsound combinations escape.",
 [CP,CO,TS],[('combination of dims',CP),('combination of properties',CP)],['input_properties of composites; acceptance of states'])
p('C13','Reduced-frequency wrapping recomputes exactly when the interval has passed',
 "A component wrapped to update every interval recomputes at the first call and at every call whose time is at least one interval after the time of the last recomputation, and at no other call. Between recomputations it returns the results of the last recomputation. A failed recomputation leaves both the remembered results and their time as they were, and every other attribute of the wrapped component remains readable through the wrapper.",
 ['histories','fault_sequences'],"all sequences of call times (increasing, equal, decreasing, on the boundary), intervals, failures and component kinds",
 "Tests check a handful of monotone time sequences.",
 [WR],[('last update time and cached output',WR)],['number and arguments of inner calls; returned results'])
p('C14','Scaling wrappers multiply exactly the requested quantities, once per call',
 "A scaling-wrapped component behaves like the wrapped one evaluated on the state with each chosen input multiplied by its factor, and each chosen output, tendency or diagnostic multiplied by its factor; everything else, including units, unscaled quantities and tracers, passes unchanged. Repeated calls scale once each and never accumulate. Factors for quantities the component does not have, and non-components, are refused at construction, and calling a timestep-requiring component without one is refused.",
 ['inputs','configurations','histories'],"all subsets of scaled quantities, factors, component kinds and repeated calls",
 "Tests scale one quantity per class and call once.",
 [WR],[('scaling of inputs and outputs',WR)],['arrays seen by the component; returned values'])
p('C15','Reported and differenced tendencies equal the change over the timestep',
 "When tendencies are reported as diagnostics, each one appears under the documented name with a value and units that equal the tendency returned, or for steppers the new minus the old value divided by the timestep in the stepper's time unit. A stepper wrapped for time differencing returns for each of its outputs that difference per second, with consistent units. This holds for all unit spellings (including dimensionless and temperature scales with an offset), aliases and timesteps.",
 ['inputs','configurations'],"all component kinds and steppers x units of declaration and state x aliases x timesteps x time units",
 "Tests use one unit and one timestep per class; unit/label combinations are not enumerated.",
 [B,TS,BA,SP],[('tendency diagnostics of components',B),('of time steppers',TS),('time differencing',BA)],['diagnostics values and units'])
p('C16','Tracers are packed and unpacked consistently over every registration history',
 "At every moment a tracer-using component sees, along its tracer axis, each of its prepended tracers followed by each registered tracer exactly once in registration order, in the registered units, and what it returns on that axis comes back as the same-named quantities with the right units and values. Re-registering with the same units changes nothing; with different units, or for a quantity that a live tracer-using component outputs itself, registration is refused and leaves the registry as it was, and a component that outputs one of its own tracers cannot be constructed. Registered names and units are reported faithfully, and a composite or time stepper declares among its inputs exactly the tracers its parts use and refuses parts that use one in incompatible ways.",
 ['histories','configurations'],"all sequences of register / conflicting register / construct component / call up to the bound, all positions of the tracer axis, prepended sets and component kinds",
 "Tests use a fixed order: register, construct, call once.",
 [TR,B,CP],[('registry and packers',TR),('pack/unpack',TR)],['get_tracer_names, get_tracer_unit_dict, arrays, outputs'],[('registry','names and units of registered tracers',TR)])
p('C17','The constants library behaves as one aliased table over every history',
 "After every sequence of setting constants, changing the condensible species and resetting, reading a constant under any of its names gives the value last set through any of those names, converted to the requested units, or the documented default if never set. Phase names refer to the currently chosen condensible's constants; resetting restores the original table completely and unknown names and invalid units are refused without effect. The printed listing always shows the current values and never fails.",
 ['histories'],"all operation sequences up to the bound over names (plain, aliased, doubly aliased, user-defined), values, units, species and resets",
 "Tests set one constant at a time from the initial state.",
 [CN,U],[('alias resolution',CN),('reset',CN)],['get_constant, get_constants_string'],[('constants and aliases','current table',CN)])
p('C18','NetCDF monitor files contain exactly the states stored, as they were',
 "For every history of stores and writes, the file contains, after each write, one record per time stored, in time order within a write and after the earlier records, each holding for every quantity the values, dimensions and attributes it had when it was stored. Only selected names are written, under their alias-replaced names, with times in the requested unit on the time's calendar. A set of states that cannot be stored faithfully (different quantities, dimensions or units) is refused with an exception, leaving the records already in the file intact and no partial record behind; states whose write was refused because of the file or directory found are still stored, and written when that cause is gone.",
 ['histories','inputs'],"all store/write sequences up to the bound over states, times, options and incompatible states",
 "Tests write two or three fixed states; interleavings of stores, mutations, writes and refused writes are not explored.",
 [NC],[('cache of states',NC),('append of records',NC)],['the file, read back with netCDF4'])
p('C19','A restart file survives a crash or I/O error at any point of a store',
 "Whatever the point at which the process dies or a file operation fails while a new state is being stored over an existing restart file, loading the restart file afterwards yields either the complete previous state or the complete new state. After a store that fails with an exception, and after every completed store, storing again works. When store returns normally, the new state is what is loaded.",
 ['crash_points','fault_sequences'],"every file-system call made during a store x {crash before it, torn write, error return} x histories of stores",
 "Tests never interrupt a store.",
 [NC],[('write to a new file, then atomic replacement',NC)],['directory contents; RestartMonitor.load in a fresh process'])
p('C20','A restart round trip returns the state that was stored',
 "Loading what was stored returns a state with the same quantities, each with the same values, dtype, dimensions and units, and the same time, for every representable state: any dims including none, integer or floating values including NaN and infinities, units that look like times, quantities named like dimensions, and dates, durations or other calendars. The last store wins, and what has been loaded stays valid when the file is later replaced.",
 ['inputs','histories'],"all states over the alphabet of names, dims, dtypes, units, special values and time types; all store/load sequences up to the bound",
 "Tests round-trip one or two plain states.",
 [NC,UT],[('decode of the restart file',NC)],['RestartMonitor.load()'])
p('C21','Unit handling is exact, consistent and refuses inconvertible units',
 "Converting a quantity between any two convertible units, by any route, yields the physically equal value with a label denoting the requested unit and with dimensions, coordinates and other attributes unchanged, never alters the original, and is exact when the units are the same; inconvertible units, unknown units and missing units are refused. Compatibility, sameness and validity predicates agree with which conversions succeed, for percent, degree and offset temperature units as well. Adding or subtracting labelled quantities keeps the left operand's attributes.",
 ['inputs'],"all ordered pairs and triples of units of a representative table of every family, values and shapes",
 "Tests convert a few pairs.",
 [U,DA],[('unit registry',U),('to_units',DA)],['to_units, units_are_compatible, units_are_same, is_valid_unit'])
p('C22','Component and stepper instances are independent of one another',
 "The behaviour and declarations of a component, wrapper, stepper or monitor instance depend only on its own construction and its own calls: constructing, using or failing to construct any other instance of the same or another class changes nothing. In particular class-level declarations are never altered by instances.",
 ['histories','configurations'],"all interleavings up to the bound of constructing and calling two or three instances with different options, compared with each instance used alone",
 "Tests build one instance per test; cross-talk needs two instances and an interleaving.",
 [B,TS,SP,WR,BA],[('per-instance declarations',B),('per-instance stepper memory',SP)],['declarations, results per instance'])
p('C23','Type checks classify every component-like object by what it provides',
 "An instance check against a component base class is true for instances of subclasses of it and, for unrelated classes, exactly for objects providing all attributes that kind of component has, none of those it lacks, and a call signature with or without a timestep as that kind requires (an optional timestep defaulting to none fits both). An object is thus never classified as two kinds that differ in signature or attributes, and wrapped components are of the kind of what they wrap.",
 ['inputs','configurations'],"all subsets of the eight attributes x call signatures x base classes",
 "Tests check a few complete duck types.",
 [B],[('metaclass instance check',B)],['isinstance'])
p('C24','Extracting an array and restoring its dimensions are inverse operations',
 "For every labelled array and every dims list that covers its dimensions, the extracted array has the listed axes in order (length one where a direction is absent, the rest flattened into the wildcard), and restoring it against the original returns the same values, dimension order and coordinates, with the requested attributes. Arrays with a dimension that is not covered, and restorations of the wrong size, are refused.",
 ['inputs'],"all dims lists with optional wildcard position x all dimension orders x lengths",
 "Tests cover a few dozen permutations and seldom the composition of both.",
 [UT],[('get_numpy_array',UT),('restore_dimensions',UT)],['get_numpy_array, restore_dimensions'])
p('C25','An installed backend is used for every quantity extracted or created',
 "With a user-supplied backend installed, components, tracers, time steppers and wrappers obtain every input array, dimension list and shape from it and create every returned quantity through it with the declared name, units and dimensions, and the default backend's containers never appear in results; reinstalling the default restores the default behaviour. Objects that are not backends are refused without changing the installed one.",
 ['histories','configurations'],"all switch/call sequences up to the bound over component kinds and backends",
 "Tests exercise one mock backend with one component.",
 [K,R,G,W,UT],[('current backend',K)],['backend call log; result types'])
p('C26','Arrays initialised for outputs have the declared shape and type',
 "Arrays initialised from output declarations are zero-filled, one per declared quantity, with the axis lengths that the declared dimensions (or the dimensions inherited from the same-named input) have in the raw inputs and the declared dtype. With tracers, one array along the tracer axis with one entry per distinct tracer replaces the individual tracers. Inputs that disagree on a length are refused.",
 ['inputs','configurations'],"all output/input declarations, raw shapes, aliases, dtypes, tracer sets over the alphabet",
 "Tests cover few shapes.",
 [IN,TR],[('initialize_numpy_arrays_with_properties',IN)],['returned arrays'])
p('C27','Built-in constant and relaxation components compute what they promise',
 "Constant components return, on every call and for every state, exactly the values, units and dimensions they were given, whatever has been done with earlier results. The relaxation component returns (equilibrium - value)/timescale at every point for every combination of units and dimension orders of its three inputs. Looking up the aliases of components returns for every quantity the alias of highest documented priority.",
 ['inputs','histories'],"all dims/units/layout combinations of the inputs; call sequences; alias placements",
 "Tests use same-shaped inputs in the same units.",
 [BA,UT],[('array_call of the built-in components',BA)],['tendencies and diagnostics'])
p('C28','Datetimes follow the requested calendar',
 "A datetime requested for any supported calendar name (in any letter case) denotes the given fields on that calendar: it exists exactly when that calendar has the date, and adding a duration advances according to it. Unsupported calendar names, and time zones on calendars that do not support them, are refused.",
 ['inputs'],"all calendar names and spellings x all month ends and leap years over the alphabet x durations",
 "Tests construct one date per calendar.",
 [TM],[('datetime factory',TM)],['sympl.datetime'])
p('C29','Wrappers, composites and steppers compose',
 "Any expression built from components with scaling, update-frequency and time-differencing wrappers, composites and time steppers gives, along a history of states, exactly what its parts promise individually: scaling multiplies inputs and outputs, reduced frequency repeats the last results until the interval has elapsed, time differencing divides the change by the timestep, composites add tendencies and join diagnostics, and steppers apply their scheme with their own memory. Quantities, units and dimensions are matched across parts that declare them differently. No call alters the state it is given or results returned earlier.",
 ['configurations','histories'],"all expressions up to the bound over the operators and atoms x a history of states whose units and dimension orders change",
 "Tests wrap or step one component once; nested expressions, and memories along a history, are not sampled.",
 [WR,CO,SP,TS,ST],[('wrappers',WR),('composites',CO),('scheme and memory of a stepper',SP)],['results of every call of the outermost object'])
p('C30','A run resumed from a restart file continues as the uninterrupted run does',
 "If a model run without memory outside its state is stopped at any points, its state stored in a restart file, everything discarded, and the run resumed with new components and steppers from the state loaded, then every later state, the final state and the records of the NetCDF output file are exactly those of the uninterrupted run.",
 ['histories','crash_points'],"all subsets of the points before and after each step of a run x models x initial states",
 "Tests store and load one state; they do not go on computing with what was loaded.",
 [NC,ST,SP,TS],[('restart file',NC),('appending to the output file',NC)],['states of the run; the output file'])
p('C31','Sets of quantities are extracted and restored faithfully as arrays',
 "Code that works without component classes gets from the public array functions what components get: every declared quantity is extracted under its alias or name, in declared units and dimensions with one wildcard order common to the set, and arrays are restored under the full name with declared units, with dimensions given or inherited from the input of the same name. Results whose names are to be ignored are left out, missing ones are tolerated only on request, and combining the declarations of several components refuses exactly those that no state could satisfy. Arguments are never altered.",
 ['inputs','configurations'],"all pairs of declarations x dimension orders and lengths x aliases; all subsets of given, ignored and missing results; all triples of declarations",
 "Tests restore a handful of arrays, one option at a time.",
 [G,R,CP,W],[('extraction',G),('restoration',R),('combination of declarations',CP)],['return values of the functions'])
p('C32','Every object can be displayed at any time without effect',
 "Converting a component, wrapper, composite, stepper or monitor to text with str, repr or format succeeds at any time - before its first call, after any calls, and when objects refer to one another in cycles, which alone are cut short - gives the same text as long as nothing else happened, names a component's declared quantities, each under its own heading, and a composite's parts, and changes neither later results nor the data of the caller.",
 ['inputs','configurations','histories'],"all expressions of wrappers, composites and steppers within the bound, displayed between all calls of a history; all reference graphs over three objects; all monitors",
 "Tests display a few components once, and never wrappers or steppers between calls.",
 [B,TS,CO,WR],[('display of components',B),('display of steppers',TS),('display of composites',CO)],['str and repr; later calls'])
p('C33','Copies of components and steppers continue independently',
 "A deep copy of a component, wrapper, composite or stepper, or one restored from a pickle, can be made at any point of a run. It has the same declarations, and it continues exactly as the original would have from the moment of the copy; original and copy never influence one another's results, in whatever order they are called afterwards.",
 ['inputs','configurations','histories'],"all expressions of wrappers, composites and steppers within the bound x calls before copying x deep copy and pickle x all interleavings of later calls",
 "Tests do not copy stateful objects.",
 [WR,TS,SP,BA,B],[('attribute access of wrappers',WR),('memory of multistep schemes',SP)],['results of later calls of both objects'])
p('C34','A failing part leaves nothing behind',
 "When the computation of any part of a wrapper, composite or stepper raises an exception, that exception reaches the caller unchanged, the state and earlier results are unaltered, and the failing part and everything that contains it keep the memory they had before the call: no cached, tendency or timing information of the failed call remains, and repeating the call and continuing the run gives what it would have given without the failure. Other parts which completed before the failure have made their step.",
 ['inputs','fault_sequences','histories'],"all expressions of wrappers, composites and steppers within the bound x a failure at every single computation of a history (thorough: every pair)",
 "Tests never let a part fail, let alone in the middle of a multi-stage step.",
 [WR,TS,SP,CO,B],[('cached output of reduced frequency',WR),('memory of Adams-Bashforth',SP),('sums of components',CO)],['exceptions and results of later calls'])
p('C35','Plot monitors draw every stored state, from a copy, on a clear figure',
 "Every store calls the plot function exactly once, with a figure on which nothing has been drawn yet and a state equal to the one stored, whose data the function may alter without affecting the caller. An interactive monitor uses one figure of its own for all stores, on which only what was drawn for the last state remains, rendered when store returns, with matplotlib's interactive mode on; a non-interactive one uses a new figure for each store and shows it once after it was drawn. A failure of the plot function reaches the caller and later stores work as if it had not happened, whatever other monitors exist.",
 ['inputs','histories','fault_sequences'],"all sequences of stores within the bound over two monitors of every choice of modes x behaviours of the plot function, including failures",
 "The tests do not exercise plot monitors at all.",
 [PL],[('copy of the state',PL),('choice and clearing of the figure',PL)],['arguments of the plot function, figures, calls of show'])
p('C36','Names of quantities, dimensions and aliases are labels only',
 "Consistently renaming quantities, dimensions and aliases - in states, declarations, arguments, registrations and files - renames the results in the same way and changes nothing else: values, units, refusals, memories of steppers, file contents and displayed constants are the same whatever names a user picks. This holds for names that resemble others, that contain or begin with one another, that begin with \"time\" or an underscore, that equal attributes or arguments used inside the library, and for dimensions named like quantities. Only the documented names (time, tracers, tracer, *) are special.",
 ['inputs','configurations'],"all names of a list of unusual ones in every role, all permutations of the roles' names, pairs of unusual names x scenarios using every part of the library",
 "Tests use a handful of ordinary names; whether code treats a name specially by accident (prefix, attribute, substring, sort order) only shows with others.",
 [G,B,SP,NC,TR,CN,R,CP],[('lookup of quantities by name or alias',G),('names of dimensions',W),('names in files',NC),('histories by name',SP)],['results of every part of the library'])
p('C37','Results depend on what a state says, not on how it is represented',
 "Two states, declarations or times that say the same give the same results, whatever the memory layout, byte order or writability of arrays, the order of dimensions, coordinates, further attributes and names of arrays, the classes and insertion orders of dictionaries, sequences and texts, the calendar in which a time is given, or the class of a timestep. This holds for every part of the library, along histories in which the representation changes from state to state.",
 ['inputs','configurations','histories'],"all representations of a list of each aspect and pairs of them x scenarios using every part of the library",
 "Tests use C-ordered arrays without coordinates in plain dictionaries throughout.",
 [G,K,B,SP,NC,TR,R,UT],[('conversion of states to arrays',K),('arithmetic on states',SP),('writing of states',NC)],['results of every part of the library'])
p('C38','Guarantees do not depend on the number of calls, parts, quantities or elements',
 "What holds for one quantity, part, dimension, element or call holds for many: a component with many quantities gives what one component for each would, a composite of many parts the sum of them all, nested wrappers the product of their factors, a wildcard stands for any number of dimensions, every element of a large array is treated like that of a small one, and the results of long runs - of steppers, reduced frequency, stores to files, restarts, settings of constants, registrations of tracers, components made and discarded - follow the same rules at the last call as at the first.",
 ['inputs','configurations','histories'],"every number of quantities, parts, wrappers and dimensions up to a bound; straight histories of hundreds of calls; tilings of arrays to thousands of elements",
 "Tests use one or two quantities, parts and calls, and arrays of a few elements.",
 [B,G,CO,WR,SP,NC,TR,CN],[('loops over quantities',B),('sums over components',CO),('memory of multistep schemes',SP),('appending to files',NC)],['results of every part of the library'])
p('C39','Results depend on physical quantities, not on the units they are given in',
 "States, declarations and earlier results that give the same physical quantities in different compatible units, or spell the same units differently, give the same physical results everywhere: components, wrappers, composites, steppers along histories in which units change from state to state, tracers, array functions and files. Units that are not compatible are refused in the same cases, and what is returned has the units declared or documented. Temperatures with an offset are converted with it, tendencies of them without.",
 ['inputs','configurations','histories'],"assignments of units and spellings to the quantities of states and of declarations, and pairs of both x scenarios using every part of the library",
 "Tests convert one quantity in one component at a time; steppers, composites and memories get states whose units agree.",
 [K,B,G,SP,CO,TR,UT],[('conversion of states to arrays',K),('units of tendencies',SP),('sums of components',CO)],['results of every part of the library'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
