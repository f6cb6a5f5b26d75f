#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit; run it to regenerate)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))


prop("C01", "Splitting a module and merging it back preserves the module graph",
     "For every module graph (nested, shared or cyclic; mixing variables, arrays, pytree nodes and static attributes), splitting it into state and definition and merging them back yields a module with the same types, values, variable kinds and metadata, static attributes, sharing and cycles, and leaves the original as it was. This holds for any exhaustive partition into substates merged in any order, for clone, and for a split that has first passed through a pytree flatten/unflatten or an identity jax.jit.",
     ["inputs", "programs"],
     "all module graphs over up to 3 module objects and 3 attribute names with every assignment of {absent, reference to any module, each leaf kind}; all filter lists and merge orders from a small menu",
     "The suite merges four hand-written graphs, one shared and one self-cyclic; aliasing bugs depend on which reference is visited first, on nesting depth and on which substate arrives last.",
     ["nnx/module.py", "nnx/state.py"],
     [("graph indexing by identity", "nnx/module.py ModuleDef construction"), ("rebuild with index table", "nnx/module.py ModuleDef.merge")],
     ["Module.partition", "ModuleDef.merge", "Pure.merge", "Module.clone"],
     [("module identity", "unique id per module object used to detect sharing", "nnx/module.py ModuleState")])

prop("C02", "Module state has exactly one canonical entry per node attribute",
     "The state of a module has exactly one entry for each node attribute (variable, array, pytree or other node type) of each distinct reachable module and none for static attributes. Its key is the slash-joined attribute path of the first visit in a depth-first walk in attribute-name order, so it depends on names and sharing only and never on the order in which attributes or references were assigned. Every way of extracting state (get_state, partition, filter, pop_state, mutable leaf mapping) uses the same paths, and states iterate in sorted path order.",
     ["inputs", "histories"],
     "all module graphs up to the bound, each built in several attribute-assignment orders",
     "Tests only count entries of graphs built in alphabetical order; agreement between extractors on shared graphs built in another order is never compared.",
     ["nnx/module.py", "nnx/state.py", "nnx/nodes.py"],
     [("sorted depth-first walk with visited set", "nnx/module.py state iteration and pop"), ("node registry", "nnx/nodes.py")],
     ["Module.get_state", "Module.filter", "Module.pop_state", "Module.mutable_state_dict"])

prop("C03", "Filters split state exactly: first match wins, nothing lost or doubled",
     "Splitting a state, module or pure module by filters puts every entry into the first filter that matches it and into no other, keeping path and value; `filter` drops what matches nothing while `partition` raises ValueError instead of dropping, and `...` is only accepted last. Filters mean: a type matches instances, `...` everything, None nothing, a predicate its own verdict on (path, value), a tuple any of its members, Not the negation, All the conjunction; anything else is rejected with TypeError.",
     ["inputs"],
     "all filter lists up to length 3 over a menu of literal and composed filters (nesting depth 2), on all subsets of a state with every leaf kind",
     "Tests use disjoint type filters in one order; overlapping, composed, nested and misplaced filters are not compared with a definition.",
     ["nnx/partitioning.py", "nnx/state.py", "nnx/module.py"],
     [("first-match split with remainder", "nnx/state.py"), ("filter to predicate", "nnx/partitioning.py")],
     ["State.partition", "State.filter", "Module.partition", "Module.filter", "Pure.filter", "Pure.partition"])

prop("C04", "pop_state removes exactly the entries it returns",
     "Popping state from a module by filters (including graphs with sharing and cycles) returns exactly the entries that filtering would have selected, under the same paths and grouped by first match, and removes exactly those attributes from the module; all other attributes, static values, sharing and structure stay, and updating the module with what was popped restores it. The functional counterpart on a pure module gives the same split without touching its input.",
     ["inputs", "histories"],
     "all module graphs up to the bound, times filter lists up to length 2",
     "Two pops on tree-shaped modules are tested; nothing pops from shared or cyclic graphs or puts the result back.",
     ["nnx/module.py"],
     [("recursive pop with visited set", "nnx/module.py"), ("Pure.pop_state", "nnx/module.py")],
     ["Module.pop_state", "Pure.pop_state"])

prop("C05", "update_state writes exactly the given entries, later states win",
     "Updating a module with one state, several states, another module or a pure module sets every named entry to the value from the last state that names it, leaves every other entry and all static attributes and sharing unchanged, keeps the variable kind and metadata of existing variables, and adds entries that did not exist. Updating a pure module with states of variables gives the state that the module would have and does not alter its input.",
     ["inputs", "histories"],
     "all sequences of up to 3 updates from a menu of partial, overlapping and extending states in each accepted form, over several module graphs",
     "Only whole-state doubling updates are tested; overlap, precedence, subsets and the functional form are not.",
     ["nnx/module.py", "nnx/state.py"],
     [("merge of states then path assignment", "nnx/module.py"), ("Pure.update_state", "nnx/module.py")],
     ["Module.update_state", "Pure.update_state"])

prop("C06", "Clones, states and pure modules are isolated from later mutation",
     "After a module is split, cloned, applied functionally or snapshotted into a state, no later assignment, deletion, update, pop or sow on the original is visible in the snapshot or in any module merged from it, nor the reverse, while within one module every alias of a shared submodule sees every change at once. A module keeps its own copy of every variable object assigned to it or put into it by an update: writing to the object that was given, or to the variables of a derived module, does not reach it.",
     ["histories"],
     "all operation sequences up to the depth bound over a module with a shared submodule, with operations on the original, on clones and on states, compared step by step with a plain object model",
     "Tests mutate once after one clone; isolation is a property of every interleaving of snapshots and mutations.",
     ["nnx/module.py", "nnx/containers.py", "nnx/state.py"],
     [("replace-on-write of variables", "nnx/module.py attribute assignment"), ("copy on merge", "nnx/containers.py")],
     ["Module.clone", "Module.partition", "ModuleDef.merge", "Module attributes"])

prop("C07", "Functional calls equal method calls on a fresh copy, for any path",
     "Calling through apply, call or init with any chain of attribute and index accesses reaches the same callable as the same chain written on the module, passes arguments unchanged and returns the same result. apply and call work on a copy and leave their inputs untouched, apply also returns the updated copy; init runs on the module itself, with is_initializing true on every reachable module during the call and false afterwards even when the call raises.",
     ["inputs", "histories"],
     "all access chains up to length 4 over a module tree that mixes attribute and index access, for each entry point, with state-changing and raising methods",
     "Tests only invoke the root __call__ through apply; nested chains and flag restoration are untested although the documentation promises any nested method.",
     ["nnx/module.py"],
     [("delayed accessor chain", "nnx/module.py"), ("callable proxy", "nnx/module.py"), ("initializing flag set and reset", "nnx/module.py")],
     ["Module.apply", "Module.init", "ModuleDef.apply", "Pure.apply", "Pure.call"])

prop("C08", "Variables keep their kind and metadata through every operation",
     "Once an attribute holds a variable, assigning plain values, equal-kind variables, tree mapping, flattening, cloning and updating change only its value and never its kind or metadata; assigning or wrapping a variable of another kind or other metadata raises ValueError and changes nothing. Values supplied with metadata acquire exactly that metadata, copies are independent of their source, and equality means same kind, value and metadata.",
     ["inputs", "histories"],
     "all operation sequences up to the depth bound over all variable kinds, with and without sharding or custom metadata, on bare variables and on variables held by modules and pytrees",
     "Tests cover three wrap errors; kinds times metadata times operations is a product no example list covers.",
     ["nnx/containers.py", "nnx/module.py", "nnx/pytreelib.py"],
     [("equivalence check on construct and replace", "nnx/containers.py"), ("metadata in pytree aux data", "nnx/containers.py")],
     ["nnx.Param", "nnx.Variable", "Module attribute assignment", "jax.tree_map"])

prop("C09", "sow records every value, in order, and refuses incompatible targets",
     "After any sequence of sows and pops, a sown variable holds exactly the tuple of values sown since it was created or last popped, in order, with the requested variable kind and the metadata it had; sowing onto a static attribute, another variable kind or a non-tuple value raises ValueError and changes nothing. The same holds when the calls happen inside functional or transformed calls that return state.",
     ["histories"],
     "all sequences up to the depth bound of sow/pop/read/assign over two names and two kinds, directly, through apply and through a stateful jit",
     "One sequence of two sows is tested.",
     ["nnx/module.py"],
     [("append to tuple-valued variable", "nnx/module.py Module.sow")],
     ["Module.sow", "Module.pop_state"])

prop("C10", "A module can be mutated exactly at the trace level that created it",
     "Every mutation of a module (assigning or deleting an attribute, updating or popping state, sowing, writing a mutable leaf, augmented assignment to a submodule) succeeds when performed at the trace level where the module was created or merged, and otherwise raises TraceContextError and leaves the module unchanged; reading stays allowed. The trace level is restored after every transform, also when the transformed function raises.",
     ["programs", "histories", "schedules"],
     "all stacks up to depth 3 of level-introducing transforms, times creation level, mutation level and mutation operation, with and without exceptions unwinding some levels",
     "Tests check assignment under one jit and one grad; deeper stacks, other mutators, leaked modules and exceptional exits are open.",
     ["nnx/module.py", "nnx/tracers.py", "nnx/transforms.py"],
     [("trace state captured at creation", "nnx/tracers.py"), ("validity check on mutation", "nnx/module.py"), ("nnx trace stack", "nnx/tracers.py")],
     ["Module attribute assignment", "nnx.TraceContextError"],
     [("trace stack", "per-thread stack of active lifted-transform traces", "nnx/tracers.py")])

prop("C11", "RNG contexts work exactly at their own trace level",
     "Drawing a key from or partitioning an RNG context succeeds at the trace level where the context was created or merged and raises TraceContextError at any other, without advancing any stream; queries for streams and flags work everywhere. This holds for every stack of transforms, for contexts that leak out of a trace, and after exceptions.",
     ["programs", "histories"],
     "all stacks up to depth 3 of level-introducing transforms, times creation level, use level and operation",
     "Tests cover a single jit in each direction.",
     ["nnx/contextlib.py", "nnx/tracers.py"],
     [("trace state captured at creation", "nnx/contextlib.py")],
     ["Context.make_rng", "Context.partition", "nnx.TraceContextError"])

prop("C12", "nnx.jit behaves like the plain function, including module state",
     "Calling a function through nnx.jit returns the same result as calling it directly and leaves the module with the same node attributes (updated values and newly added ones on existing submodules), kinds, metadata, static attributes and sharing, for every sequence of calls interleaved with direct mutation; an RNG context passed as `ctx` gives fresh keys on each call and keeps its flags. With stateful=False the result is the same and the module is untouched.",
     ["programs", "histories"],
     "all module graphs of a small family times all straight-line bodies up to length 2-3 over read/write/add/sow/shared-write operations, called repeatedly with direct mutation in between",
     "Tests run one assignment under jit.",
     ["nnx/transforms.py", "nnx/module.py", "nnx/contextlib.py"],
     [("partition, jitted merge and run, update", "nnx/transforms.py JitTransform")],
     ["nnx.jit"])

prop("C13", "Compiled code is reused only for structurally equal modules",
     "Two module definitions are equal (with equal hash when hashable) exactly when the modules have the same types, static attribute names and values, submodule names, structure and sharing, and initializing flags (which node attributes there are, their kinds and metadata belong to the state, whose tree structure tells them apart); value changes alone never retrace a jitted function over a split module, and a change of static value, type, variable kind, metadata, attribute set, sharing or initializing flag never reuses a trace made for another. Results after any history therefore always match the current module.",
     ["inputs", "histories"],
     "all ordered pairs of module variants from an exhaustively enumerated family, and all mutation histories up to the bound between calls",
     "One test counts retraces for a value change and an added parameter.",
     ["nnx/module.py", "nnx/containers.py", "nnx/contextlib.py"],
     [("definition equality and hash", "nnx/module.py ModuleDef"), ("pytree aux data", "nnx/module.py, nnx/containers.py")],
     ["ModuleDef ==", "hash(ModuleDef)", "jax.jit over Pure", "nnx.jit"])

prop("C14", "nnx.grad differentiates exactly the selected state and keeps updates",
     "nnx.grad returns, for exactly the entries selected by `wrt` (once per shared variable), the true gradient of the returned scalar, under the same paths, kinds and metadata, with auxiliary output returned when asked. Module updates made by the function are kept as concrete values when stateful and discarded otherwise, nothing outside is altered, and the result equals differentiating the functional form by hand.",
     ["inputs", "programs"],
     "all combinations of wrt filter, stateful, has_aux, module graph (with sharing) and body from a small polynomial grammar with side effects, with nesting under nnx.jit and a second nnx.grad",
     "Tests differentiate one linear sum with three filters.",
     ["nnx/transforms.py", "nnx/partitioning.py"],
     [("partition into differentiable and rest", "nnx/transforms.py GradTransform")],
     ["nnx.grad"])

prop("C15", "nnx.scan equals the unrolled loop over layers",
     "Running a lifted scan gives the same carry, stacked outputs and final module state as a Python loop that slices axis variables, per-step inputs and split RNGs for each step, threads the carry and carry variables through all steps in the chosen direction, and gives broadcast variables, arguments and unsplit RNGs unchanged to every step. Variables created by the body are present afterwards (stacked, carried or broadcast according to their filter), initialization builds each layer with its own split keys, and inconsistent lengths raise ValueError.",
     ["inputs", "programs"],
     "all combinations of length 1-3, direction, unroll, variable axis position, in/out axes, carried, broadcast and created variables, RNG splitting, class and decorator form",
     "Tests assert output shapes of length-5 scans; no value is compared with a loop, and reverse, axes, creation and broadcasting are never exercised.",
     ["nnx/transforms.py", "nnx/spmd.py"],
     [("state split by axes/broadcast/carry", "nnx/transforms.py scan_apply"), ("first-step handling of created variables", "nnx/transforms.py scan_apply"), ("vmapped construction", "nnx/transforms.py scan_init")],
     ["nnx.scan", "nnx.Scan"])

prop("C16", "nnx.remat changes neither values, gradients, state nor randomness",
     "A rematerialized method or module returns the same outputs, the same gradients, the same module updates and the same random draws (from the forked context) as the same call without rematerialization, for all static-argument choices, and composes with scan, grad and jit.",
     ["inputs", "programs"],
     "all combinations of body, static_argnums, prevent_cse, policy, ctx use, class and decorator form, with and without outer grad/jit/scan",
     "Tests only check output shapes.",
     ["nnx/transforms.py"],
     [("checkpointed merge and run with state returned", "nnx/transforms.py remat_apply")],
     ["nnx.remat", "nnx.Remat"])

prop("C17", "RNG keys never repeat and depend only on seed, stream and history",
     "In any history of drawing keys, splitting off and merging contexts, and copying contexts, all keys drawn from one root seed and stream are distinct (an explicit re-merge of the same split is the only replay), and each key is a function of the seed, the stream and the sequence of operations alone, independent of what other streams do. A copy of a context (Context.copy), like a context built from the same RngStream objects, shares its streams with the original. Unknown streams raise, and stream names and flags survive splitting, merging, copying and passing through transforms.",
     ["histories"],
     "all operation sequences up to the depth bound over trees of contexts with two streams, with every resulting key compared",
     "Tests draw two keys and fork once; uniqueness is over all pairs of keys of all fork trees.",
     ["nnx/contextlib.py"],
     [("count path hashed into the key", "nnx/contextlib.py"), ("fork advances the parent", "nnx/contextlib.py Context.partition")],
     ["nnx.context", "Context.make_rng", "Context.partition", "Context.copy"],
     [("stream count and count path", "position in the fork tree", "nnx/contextlib.py RngStream")])

prop("C18", "Pytree objects flatten losslessly with exactly their nodes as children",
     "For every pytree class and attribute assignment, flattening yields exactly the node attributes (variables, arrays, nested pytrees and other node types) in attribute-name order whatever the assignment order, with key paths naming them, and everything else as static structure; unflattening rebuilds an equal object of the same class with the same kinds and metadata, and mapping arrays to arrays or jitting it changes leaves only. Two objects share a tree structure exactly when their class, attribute names, kinds, metadata and static values agree.",
     ["inputs"],
     "all attribute assignments over up to 3 names times each value kind, all insertion orders, inheritance and dataclass forms",
     "Tests flatten five fixed classes.",
     ["nnx/pytreelib.py", "nnx/containers.py", "nnx/nodes.py"],
     [("sorted field list, node test per field", "nnx/pytreelib.py")],
     ["jax.tree_util over Pytree", "jax.jit over Pytree"])

prop("C19", "Immutable pytrees never change; replace makes a faithful changed copy",
     "No sequence of attribute assignments or deletions changes an initialized immutable pytree, its attribute set or its leaves: each attempt raises AttributeError. Mutable ones accept assignment to existing fields only, keeping variable kind. replace returns a new object equal to the original except for the given fields, with all other fields' kinds and metadata kept, rejects unknown fields, and leaves the original untouched and the copy as immutable as the original. A class is mutable exactly when it was declared so itself, whatever its base classes.",
     ["histories", "inputs"],
     "all operation sequences up to the depth bound over plain, mutable, dataclass and frozen dataclass forms with every field kind",
     "Each form is tested with a single assignment and a single replace.",
     ["nnx/pytreelib.py", "nnx/dataclasses.py"],
     [("assignment guard", "nnx/pytreelib.py"), ("replace under a mutable window", "nnx/pytreelib.py")],
     ["Pytree attributes", "Pytree.replace"])

prop("C20", "Pytree state dictionaries round-trip and reject mismatches",
     "Converting a pytree to a flax state dictionary and restoring it into an object of the same structure gives back the same classes, kinds, metadata, static fields and saved values at every nesting level, including nested pytrees and containers held by node fields. A missing or unknown field at any level raises ValueError and nothing is partially restored.",
     ["inputs", "fault_sequences"],
     "all nestings up to depth 3 of plain, node-wrapped and dataclass pytrees with list and dict values, times every single deletion or addition in the dictionary",
     "One two-level example is tested, with plain (not node-wrapped) nesting.",
     ["nnx/pytreelib.py"],
     [("to/from state dict handlers", "nnx/pytreelib.py")],
     ["flax.serialization.to_state_dict", "flax.serialization.from_state_dict"])

prop("C21", "TrainState histories equal the hand-written optimizer loop",
     "For any sequence of apply_gradients, apply and replace calls, a train state holds the parameters, optimizer state, step count, extra fields and definition that the plain optax loop would give; each call returns a new state and never alters earlier ones, apply takes names and states in any order with later entries winning, extra fields keep their node or static nature, and the same holds inside jax.jit and after flattening.",
     ["histories"],
     "all operation sequences up to the depth bound over three optimizers, with branching from earlier states",
     "One apply_gradients call is made and its result not inspected.",
     ["nnx/helpers.py", "nnx/pytreelib.py"],
     [("apply_gradients", "nnx/helpers.py TrainState"), ("replace", "nnx/pytreelib.py")],
     ["nnx.TrainState"])

prop("C22", "Dataclass fields are wrapped exactly as declared",
     "In dataclass modules and pytrees every field ends up as its declaration says (node, parameter, given variable type with its sharding, static, or plain) whatever combination of defaults, factories, positional or keyword arguments and inheritance supplied the value, so that exactly the declared fields are part of the state. Passing a container of another kind raises ValueError, an equal kind is accepted, and values read back are the plain values.",
     ["inputs", "programs"],
     "all classes with up to 3 fields over all field kinds, times supply modes and the module, pytree, frozen and inherited forms",
     "Two fixed dataclasses are tested.",
     ["nnx/dataclasses.py", "nnx/module.py", "nnx/pytreelib.py"],
     [("container function in field metadata applied after init", "nnx/module.py, nnx/pytreelib.py")],
     ["nnx.dataclass", "nnx.node_field", "nnx.param_field", "nnx.var_field", "nnx.static_field"])

prop("C23", "Logical axis names map to mesh axes by rule priority, each used once",
     "For every list of rules and every tuple of logical axis names, mapping to mesh axes assigns to each name the first rule for it, in rule order, whose mesh axes are all still unused, never uses a mesh axis twice, maps unnamed or unmatched dimensions to None and rejects duplicate names; the result applies leaf by leaf to trees of specs and to shardings. Rules given explicitly override the ambient ones.",
     ["inputs"],
     "all rule lists up to length 4 over 3 names and 5 mesh targets, times all name tuples up to rank 3",
     "One two-rule example is tested.",
     ["nnx/spmd.py"],
     [("priority assignment", "nnx/spmd.py")],
     ["nnx.logical_to_mesh", "nnx.spmd.logical_to_mesh_axes"])

prop("C24", "Partition specs and sharding metadata stay aligned with array axes",
     "The partition spec of a tree gives each variable with sharding its own axis names, replicated specs to other arrays and None to non-arrays, keeping the tree structure. When a scan stacks variables along an axis, the metadata gains the partition name at exactly the position of the new array axis, loses it inside the body, regains it after, and the user's metadata is otherwise unchanged.",
     ["inputs"],
     "all variable ranks up to 3 and scan axis positions (also negative), with full, partial, empty and absent sharding, with and without the partition name, several scan calls",
     "One scan along axis 0 with full sharding is tested.",
     ["nnx/spmd.py", "nnx/transforms.py"],
     [("axis insertion and removal", "nnx/spmd.py add_axis, remove_axis"), ("spec extraction", "nnx/spmd.py get_partition_spec")],
     ["nnx.get_partition_spec", "nnx.Scan with metadata_params"])

prop("C25", "Distinct modules are never confused, even when created concurrently",
     "Modules created by any number of threads under any interleaving are distinct: split, merge, clone and traversal treat two modules as shared only when they are the same object. Copies made with copy.copy and copy.deepcopy are new modules that can be changed and combined with the original independently, deepcopy keeping internal sharing.",
     ["schedules", "histories"],
     "all bytecode-level interleavings of 2-3 creating threads up to the preemption bound; all small graphs under copy and deepcopy",
     "No test creates modules concurrently or copies one with the copy module.",
     ["nnx/ids.py", "nnx/module.py", "nnx/tracers.py"],
     [("locked counter", "nnx/ids.py"), ("copy hooks of ids", "nnx/ids.py")],
     ["Module construction", "Module.partition", "copy.copy", "copy.deepcopy"],
     [("id counter", "global counter behind module identity", "nnx/ids.py")])

prop("C26", "Printing is total, bounded, repeatable and thread independent",
     "Printing any module, state, definition, variable, mutable leaf, pytree or context terminates on shared and cyclic graphs, shows every static attribute and submodule once, gives the same text each time the object is unchanged, changes nothing, indents the lines of nested values below the line that opens them, and leaves no trace behind after an error. Printing in one thread under any interleaving never fails because of or changes with what other threads print.",
     ["schedules", "inputs"],
     "all small module graphs, each printed repeatedly and after a failing print; all interleavings of two printing threads up to the preemption bound",
     "Nothing tests printing.",
     ["nnx/reprlib.py", "nnx/module.py"],
     [("seen set for cycles", "nnx/module.py"), ("indent stack", "nnx/reprlib.py")],
     ["repr(Module)", "repr(State)", "repr(ModuleDef)"],
     [("seen modules", "modules already shown by the current print", "nnx/module.py"), ("indent stack", "current indentation", "nnx/reprlib.py")])

prop("C27", "Linear and Embed compute their definition for every shape and dtype",
     "Linear computes inputs times kernel plus bias over the last axis for every number of batch dimensions, with or without bias, in the dtype that the dtype argument or promotion dictates; Embed returns the rows selected by integer inputs of any shape, rejects non-integers, and attend returns inner products with every row. Parameters have the declared shapes and dtypes, are deterministic in the seed and are the only state.",
     ["inputs", "configurations"],
     "all combinations of feature sizes 1-3, batch ranks 0-3 (sizes 0-2), bias, dtype, param dtype and input dtype, compared with a scalar reference",
     "Layers are only called inside larger examples with one float32 shape.",
     ["nnx/nn/linear.py", "nnx/nn/dtypes.py"],
     [("dtype promotion", "nnx/nn/dtypes.py"), ("dot over last axis", "nnx/nn/linear.py")],
     ["nnx.Linear", "nnx.Embed"])

prop("C28", "Conv computes the defined convolution for every configuration",
     "For every kernel size, stride, padding mode (SAME, VALID, CIRCULAR, CAUSAL, ints, pairs), input and kernel dilation, feature grouping, mask, bias and number of batch dimensions, Conv returns the values of the textbook sliding-window sum with that padding; batch dimensions act independently and unsupported or malformed settings raise instead of computing something else.",
     ["inputs", "configurations"],
     "the full product of small configuration domains in 1 and 2 spatial dimensions, compared with a loop reference",
     "No test calls Conv.",
     ["nnx/nn/linear.py"],
     [("batch flattening and restoring", "nnx/nn/linear.py Conv"), ("padding canonicalization", "nnx/nn/linear.py")],
     ["nnx.Conv"])

prop("C29", "Normalization layers match their definition and keep running statistics",
     "BatchNorm and LayerNorm return the input normalized by mean and variance over exactly the declared axes, scaled and shifted by their parameters. BatchNorm updates its running statistics by the momentum rule on each training call, leaves them unchanged when using running averages, never touches parameters, and decides between the two by call argument, then attribute, then context flag, raising when none is given; LayerNorm keeps no statistics and normalizes each example independently.",
     ["inputs", "histories", "configurations"],
     "all configurations of axis, scale, bias, dtype, epsilon and momentum with input ranks 2-4, and all call sequences up to length 3 over train/eval and flag sources",
     "BatchNorm appears in shape-only tests; LayerNorm is never tested.",
     ["nnx/nn/normalization.py", "nnx/module.py"],
     [("statistics and normalization", "nnx/nn/normalization.py"), ("flag precedence", "nnx/module.py first_from")],
     ["nnx.BatchNorm", "nnx.LayerNorm"])

prop("C30", "Dropout masks, scales and obeys its switches",
     "Dropout returns its input unchanged when deterministic or at rate 0 and zeros at rate 1; otherwise each element is either zero or the input divided by the keep probability, decided by a mask drawn once from the named stream and shared along broadcast dimensions, so equal keys give equal results and, for any input precision, equal masks, and exactly one key is consumed. The switch is taken from call argument, then attribute, then context flag, and missing switches or a missing context raise.",
     ["inputs", "configurations"],
     "all combinations of the three switch sources, rates, broadcast dimensions, stream names and input shapes",
     "Dropout appears only inside shape-only scan tests.",
     ["nnx/nn/stochastic.py", "nnx/module.py", "nnx/contextlib.py"],
     [("flag precedence", "nnx/module.py first_from"), ("mask with broadcast dims", "nnx/nn/stochastic.py")],
     ["nnx.Dropout"])

prop("C31", "Dict and Sequence modules behave as the containers they stand for",
     "A Dict module reads, writes, iterates, counts and tests membership exactly like a mapping of its items, and a Sequence module has the length, order, elements and indices (from both ends) of the list it was built from, including empty ones, before and after clone, update and merge; both contribute their items to state under their key or position. Calling a Sequence pipes each output to the next callable (tuples as positional, dicts as keyword arguments), gives the context to those that accept it and modifies no intermediate value.",
     ["inputs", "histories"],
     "all operation sequences up to the depth bound over a 3-key alphabet and all lists up to length 3 of callables with every output shape",
     "Tests use both only as building blocks.",
     ["nnx/helpers.py"],
     [("mapping interface", "nnx/helpers.py Dict"), ("call chain", "nnx/helpers.py Sequence")],
     ["nnx.Dict", "nnx.Sequence"])

prop("C32", "State algebra follows the laws of sorted maps",
     "States are immutable sorted maps: merging and `|` take the union with the right-hand side winning, `-` removes the keys of the right-hand side, construction order and form do not matter, and flattening, mapping and unflattening keep paths, order and entry kinds. Filtering into groups and merging them back in any order gives the original, and no operation changes its operands.",
     ["inputs", "histories"],
     "all states over 3 paths with two values each, all pairs and triples under merge, or, minus, filter and partition, compared with plain dictionaries",
     "State operators are never tested directly.",
     ["nnx/state.py"],
     [("sorted construction", "nnx/state.py"), ("merge, or, sub", "nnx/state.py"), ("pytree registration with keys", "nnx/state.py")],
     ["nnx.State"])

prop("C33", "Logical axis rules are scoped, per thread, and only constrain layout",
     "Ambient logical axis rules apply exactly inside the with-block that sets them and are restored when it exits normally or by exception, at any nesting and in every thread independently. Partitioned initializers and variables return the same values with or without rules and mesh, with the layout the rules dictate when a mesh is in force, and the fallback policy decides what happens to names without a rule.",
     ["histories", "schedules", "configurations"],
     "all nestings and unwinding patterns up to the depth bound, all interleavings of two threads entering and leaving scopes up to the preemption bound, and all rule/mesh/fallback combinations on an 8-device host platform",
     "The only layout test is skipped on CPU; scoping is never tested.",
     ["nnx/spmd.py"],
     [("thread-local rules with restore", "nnx/spmd.py"), ("constraint application", "nnx/spmd.py")],
     ["nnx.logical_axis_rules", "nnx.with_logical_partitioning", "nnx.with_logical_constraint"],
     [("ambient rules", "current logical to mesh rules", "nnx/spmd.py")])

prop("C34", "Compositions of transforms equal the composition of their meanings",
     "Nesting nnx.jit, nnx.grad, nnx.scan and nnx.remat in any order around a function that reads and updates module state gives the same outputs, gradients and final module state as the corresponding plain Python computation, and concrete values (never tracers) remain in the module afterwards. A transformed function that raises leaves the module it was given as it was, also when an outer transformed function catches the exception. The same holds when all of it runs inside a plain jax transformation.",
     ["programs"],
     "all stacks of transforms up to depth 3 over a module with parameters, statistics and a shared submodule, times bodies, with and without an exception at each level",
     "Two fixed compositions are tested for shape.",
     ["nnx/transforms.py", "nnx/tracers.py", "nnx/module.py"],
     [("state in, state out, update", "nnx/transforms.py")],
     ["nnx.jit", "nnx.grad", "nnx.scan", "nnx.remat"])

prop("C35", "The initializing flag is on exactly while init runs; for_each is exact",
     "is_initializing is true for a module exactly while an init call that could reach it when the call began is running: init calls nest in any way, end by returning or by any exception, and modules attached, moved, replaced or detached meanwhile never keep or lose the flag wrongly. Functional copies taken during init carry the flags of the originals and never change them. for_each calls its function once for every reachable module of the given type, whatever the sharing, cycles or types in between.",
     ["histories", "inputs"],
     "all programs of nested init calls, failures, structural changes and functional calls up to a length bound on several graphs, and all module graphs up to a size bound times module types for for_each",
     "Tests call init once on a fresh module; nesting, failures and structural changes during init are never tested.",
     ["nnx/module.py"],
     [("setting and restoring the flags around the call", "nnx/module.py Module.init"), ("graph traversal", "nnx/module.py Module._on_all"), ("flag in module definitions", "nnx/module.py ModuleState")],
     ["Module.init", "Module.is_initializing", "Module.for_each"],
     [("initializing flag", "ModuleState.is_initializing of every module", "nnx/module.py")])

prop("C36", "An attribute is state exactly when its value is of a registered node type",
     "Whether an attribute of a module or pytree is a node or static is decided by one rule, wherever it is asked: its value is an instance of a type registered by then (arrays, variables, states, pytrees, and what register_node_type was given, with subclasses and virtual subclasses). Splitting, definitions, filters, pop, update, clones, pytree flattening and state dictionaries all agree with it after any history of registrations and assignments, registering twice changes nothing, what was split before a registration merges to the same module, and no registration is lost when several threads register types at once.",
     ["histories", "schedules"],
     "all histories of registrations and assignments up to a length bound over five related types, and all interleavings of registering and inspecting threads up to the preemption bound",
     "One test registers nothing; the registry is never exercised.",
     ["nnx/nodes.py", "nnx/module.py", "nnx/pytreelib.py"],
     [("registry", "nnx/nodes.py register_node_type, is_node"), ("nodes of modules", "nnx/module.py _iter_state, _make_module_def, _pop"), ("nodes of pytrees", "nnx/pytreelib.py _pytree__flatten")],
     ["nnx.register_node_type", "nnx.is_node", "Module.partition", "Pytree flattening"],
     [("registered types", "the tuple of node types", "nnx/nodes.py")])

prop("C37", "Activations and initializers compute what their names say",
     "Every exported activation function gives the value of its formula for every number, in each precision and under jit; softmax, log_softmax, logsumexp, normalize, standardize, glu and one_hot do so along any axis. Every initializer is a function of key, shape and dtype only, with the support, spread and fan computation its name stands for, constants are exact, and orthogonal ones are orthogonal.",
     ["inputs", "configurations"],
     "every bfloat16 and every float16 number for each activation and option, all small rows over a set of extreme values, and all initializer configurations over shapes, dtypes and axes",
     "Neither activations nor initializers are tested.",
     ["nnx/nn/activations.py", "nnx/nn/initializers.py", "nnx/__init__.py"],
     [("activation names", "nnx/nn/activations.py"), ("initializer names", "nnx/nn/initializers.py")],
     ["nnx.relu ... nnx.tanh", "nnx.initializers"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
