"""Writes properties.jsonl (kept in one place so that ids, statements and anchors stay in step)."""
import json
import os

R = 'ros_bt_py/ros_bt_py/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': list(over), 'text': qtext},
              'why_tests_cant': why,
              'anchors': {'files': [R + f for f in files], 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech], 'observe_at': list(observe),
                          'hook_needed': None}})


prop('C01', 'Sequences tick left to right and stop at the first child not succeeding',
     'A Sequence ticks its children left to right from the first one (a MemorySequence from the child that last returned '
     'RUNNING, until a result, an untick or a reset clears that memory), each at most once per tick, stops at the first child '
     'that does not return SUCCEEDED and returns that child\'s result, and returns SUCCEEDED only when the last child did (or '
     'when there is none). When a child returns FAILED every later child is unticked, the tick after a result first resets '
     'every child, and untick and reset reach every child. An error of a child ends the operation with an error, without '
     'touching further children.',
     ('inputs', 'histories'), 'every number of children, every result of every child, every history of tick, untick and reset',
     'There is no unit test of Sequence at all; any test fixes a number of children and a script of results.',
     ['nodes/sequence.py'], [('Sequence', 'nodes/sequence.py'), ('MemorySequence', 'nodes/sequence.py')],
     [('last_running_child', 'where MemorySequence resumes', 'nodes/sequence.py')], ['tick(), state, calls on the children'])
prop('C02', 'Fallbacks tick left to right and stop at the first child not failing',
     'A Fallback ticks its children left to right from the first one (a MemoryFallback from the child that last returned '
     'RUNNING, until a result or a reset clears that memory; an untick keeps it), each at most once per tick, stops at the '
     'first child that does not return FAILED and returns that child\'s result, and returns FAILED only when the last child '
     'did (or when there is none). When a child returns SUCCEEDED every later child is unticked; the tick after a result '
     'first resets every child; untick and reset reach every child. An error of a child ends the operation with an error, '
     'without touching further children.',
     ('inputs', 'histories'), 'every number of children, every result of every child, every history of tick, untick and reset',
     'The tests follow four scripts with three children of a MemoryFallback; Fallback itself is not tested.',
     ['nodes/fallback.py'], [('Fallback', 'nodes/fallback.py'), ('MemoryFallback', 'nodes/fallback.py')],
     [('last_running_child', 'where MemoryFallback resumes', 'nodes/fallback.py')], ['tick(), state, calls on the children'])
prop('C03', 'Parallel nodes decide by counting results and never re-tick a finished child',
     'In every tick a Parallel ticks each child that has no result yet exactly once and no other; it returns SUCCEEDED exactly '
     'when at least the required number of children have succeeded, else FAILED exactly when so many have failed that this is '
     'out of reach (for the failure-tolerant variant: when more failed than tolerated), else RUNNING. Once it has a result no '
     'child is left running: children without a result are unticked, others are left alone, and the next tick first resets '
     'every child. An error of a child ends the operation with an error.',
     ('inputs', 'histories'), 'every number of children, threshold, result of every child, history of tick, untick and reset',
     'Parallel has no unit test; the counting argument needs an unbounded number of children.',
     ['nodes/parallel.py'], [('Parallel', 'nodes/parallel.py'), ('ParallelFailureTolerance', 'nodes/parallel.py')],
     [('_needed_successes', 'threshold read at setup', 'nodes/parallel.py')], ['tick(), state, calls on the children'])
prop('C04', 'Switch nodes tick exactly the selected child',
     'NameSwitch ticks exactly the child whose name equals its input, and EnumSwitch exactly the child named like the '
     'member (the part of the name after the last dot) that has the selected value; the result is that child\'s, every '
     'other child is unticked and not ticked. If no child is selected the result is FAILED and no child is ticked. The '
     'tick after a result first resets every child; untick and reset reach every child. An error of a child ends the '
     'operation with an error.',
     ('inputs', 'histories'), 'every set of children names, every input value and change of it between ticks, every child result',
     'No unit test exists for either node; the selected value may change between any two ticks.',
     ['nodes/fallback.py', 'ros_nodes/enum_switch.py'],
     [('NameSwitch', 'nodes/fallback.py'), ('EnumSwitch', 'ros_nodes/enum_switch.py')], observe=['tick(), calls on the children'])
prop('C05', 'Result-mapping decorators apply their mapping to every child result',
     'Inverter swaps SUCCEEDED and FAILED; IgnoreFailure, IgnoreRunning, IgnoreSuccess, UntilSuccess and the other '
     'result-replacing decorators replace exactly the result they name by the documented replacement, and every other '
     'result, including errors, passes through unchanged. Each tick, untick or reset of the decorator performs exactly '
     'one such operation on its child. Optional decides at setup: if the child could not be set up it succeeds without '
     'ever ticking it, else it passes the child through. Watch unticks its child before ticking it when the watched '
     'input was updated.',
     ('inputs', 'histories'), 'every result of the child, every history of operations',
     'No unit test exists for any decorator.',
     ['nodes/decorators.py'], [('IgnoreFailure .. Inverter, Optional, Watch', 'nodes/decorators.py')], observe=['tick()'])
prop('C06', 'Repetition decorators count child results exactly',
     'Retry returns FAILED exactly when the child failed more often than the allowed number of retries, and SUCCEEDED '
     'when the child did; Repeat passes a success of the child on only after it has reset and repeated the child the '
     'requested number of times, and passes a failure on at once; between repetitions the child is reset and the '
     'result is RUNNING. RepeatAlways, RepeatUntilFail and RepeatIfFail end exactly in the case their name says. '
     'Counting starts afresh at a setup, at a reset and after Retry\'s FAILED, while an untick keeps the count. '
     'RepeatNoAutoReset counts until its reset input is set, which restarts the counting.',
     ('inputs', 'histories'), 'every count, every sequence of child results, every history of operations',
     'No unit test exists; counters are unbounded.',
     ['nodes/decorators.py'], [('Retry, Repeat, RepeatAlways, RepeatUntilFail, RepeatIfFail', 'nodes/decorators.py')],
     [('_retry_count, _repeat_count', 'repetitions so far', 'nodes/decorators.py')], ['tick()'])
prop('C07', 'Time-gated nodes act only when their interval has elapsed',
     'Wait returns RUNNING until its duration has elapsed since its first tick after a setup or reset, and SUCCEEDED '
     'from then on; an untick does not restart it. Throttle repeats the last result without ticking its child until '
     'more than its interval has elapsed since that result, then ticks the child again and passes its result on; while '
     'the child is running it is ticked every time. ThrottleSuccess holds back only after a success: it then returns '
     'FAILED without ticking the child until more than the interval has elapsed. All of this holds for every sequence '
     'of non-decreasing clock readings.',
     ('inputs', 'histories', 'schedules'), 'every duration, every non-decreasing sequence of clock readings, every child result',
     'No unit test exists; behaviour depends on clock readings at every tick.',
     ['ros_nodes/wait.py', 'ros_nodes/throttle.py', 'ros_nodes/time.py'],
     [('Wait', 'ros_nodes/wait.py'), ('Throttle, ThrottleSuccess', 'ros_nodes/throttle.py')], observe=['tick()'])
prop('C08', 'Every node follows the lifecycle: allowed operations, resulting states, errors',
     'A node can be set up only when it is UNINITIALIZED or SHUTDOWN, and is IDLE afterwards; it can be ticked, '
     'unticked and reset only when it is none of UNINITIALIZED, SHUTDOWN and BROKEN; a refused operation reports an '
     'error and leaves state and data alone. A successful operation calls the node\'s implementation exactly once and '
     'returns the state the node is then in, which is the one the implementation answered; an answer that is not '
     'allowed is an error. An error of the implementation, an unset input at a tick or an output that cannot be pushed '
     'leaves the node BROKEN, and only a shutdown followed by a setup makes it usable again. A setup forgets dynamic '
     'inputs and outputs, a reset forgets the outputs, and after a tick exactly the changed outputs count as new.',
     ('inputs', 'histories', 'fault_sequences'),
     'every node state, every outcome of the node\'s own implementation of each operation, every history',
     'Tests drive single transitions of one dummy node; the guarantee is over all histories and fault points.',
     ['node.py'], [('setup, tick, untick, reset, shutdown', 'node.py')], [('state', 'life cycle state', 'node.py')],
     ['returned result, state'])
prop('C09', 'setup, untick, reset and shutdown reach every child',
     'Setting up, unticking, resetting or shutting down a flow-control node or a decorator does so to every child '
     'exactly once, in order. The first child that reports an error at a setup, untick or reset ends the operation '
     'with that error and leaves the node BROKEN; a shutdown still reaches every child, and reports an error exactly '
     'if the node or a child did. After a shutdown without error the node and all its children are SHUTDOWN.',
     ('inputs', 'fault_sequences'), 'every flow-control and decorator node, any number of children, any child reporting an error',
     'No unit test checks propagation at all.',
     ['node.py', 'nodes/sequence.py', 'nodes/fallback.py', 'nodes/parallel.py', 'nodes/decorators.py'],
     [('Node.shutdown', 'node.py'), ('_do_setup, _do_untick, _do_reset of flow control nodes', 'nodes/')],
     observe=['calls on the children, states'])
prop('C10', 'Computation nodes return what their inputs determine',
     'The constant, passthrough, IO, comparison, arithmetic, conversion, list, dictionary, attribute, formatting, '
     'random-number, YAML, message, constant-field, time and parameter nodes set their outputs to exactly the '
     'documented function of their current inputs and succeed; where that function is undefined or its value does not '
     'fit the type of the output they fail or report an error, and never raise. They do not change their inputs. A '
     'comparison or membership test returns SUCCEEDED or FAILED according to the relation; CompareNewOnly is RUNNING '
     'while neither of its inputs changed. A getter ticks its child first and passes RUNNING, FAILED and errors on, '
     'and is RUNNING while its data have not changed, unless succeed_on_stale_data is set. IterateList gives the '
     'elements in order, lets one tick pass after each new element, moves on when its child has succeeded, stays at '
     'the element when the child failed, starts over after a new list or a reset, and succeeds after the last element. '
     'A YAML node reads its file again only for a new path or after a reset.',
     ('inputs',), 'every input value of the declared types',
     'Tests exist only for the pass-through IO nodes.',
     ['nodes/compare.py', 'nodes/constant.py', 'nodes/maths.py', 'nodes/list.py', 'nodes/getters.py', 'nodes/setters.py',
      'nodes/format.py', 'nodes/random_number.py', 'nodes/file.py', 'nodes/passthrough_node.py', 'nodes/io.py'],
     [('_do_tick of the leaf nodes', 'nodes/')], observe=['outputs, result'])
prop('C11', 'A service node calls once per activation and reports the call\'s outcome',
     'A service node sends one request, made of its present inputs, to the configured service in the first tick of an '
     'activation and in a tick after its service name or a request field changed or after a reset, and in no other '
     'tick. It returns RUNNING while the call is pending and no longer than its timeout; it ends SUCCEEDED with the '
     'response as outputs, FAILED when the call was cancelled or after the timeout (never before), and reports an '
     'error for a call that ended without a response; the result is kept until there is a new activation. An untick, '
     'reset or shutdown cancels a call that is pending, no answer to an earlier call affects a later activation, there '
     'is at most one client and one pending call at a time, and a shutdown releases the client (a client that cannot '
     'be released is reported). A wait-for-service node asks for the configured service in every tick, succeeds '
     'exactly when it is available, and fails exactly when its timeout has passed since it started to wait.',
     ('inputs', 'histories', 'schedules'), 'every order of ticks, unticks, resets, responses and clock readings',
     'There is no unit test of the service nodes; outcomes depend on the interleaving of responses and ticks.',
     ['ros_nodes/service.py'], [('ServiceBase, Service, WaitForService', 'ros_nodes/service.py')], observe=['calls on the client, result'])
prop('C12', 'An action node has at most one goal in flight and reports that goal\'s outcome',
     'An action node sends one goal, made of its present inputs and to the configured action, in the first tick of an '
     'activation and within two ticks after its inputs changed and the earlier goal ended or its cancellation was '
     'answered; it sends no goal while one is in flight. It returns RUNNING while the goal waits for its acceptance, '
     'is running or is being cancelled. It ends SUCCEEDED exactly when the goal did, FAILED when the goal was not '
     'accepted, was aborted or cancelled, ended without a result or was cancelled after its timeout, with the goal\'s '
     'result as outputs, and keeps that outcome until there is a new activation or changed inputs. A goal is cancelled '
     'when its inputs changed, in the tick after its timeout has passed (never before), and by an untick, reset or '
     'shutdown (a goal that is not accepted yet, as soon as it is). There is at most one client at a time; it is kept '
     'as long as a goal needs it, and a reset or shutdown releases it. The feedback outputs are those the server '
     'reported last.',
     ('inputs', 'histories', 'schedules'), 'every order of ticks, unticks, resets, acceptances, results and clock readings',
     'There is no unit test of the action node; outcomes depend on interleavings.',
     ['ros_nodes/action.py'], [('ActionBase', 'ros_nodes/action.py')], observe=['calls on the action client, result'])
prop('C13', 'Topic nodes report each message once and publish exactly their input',
     'A subscriber node succeeds exactly when a message arrived since it last reported one, was reset or set up, or '
     'noticed changed settings, and then outputs the latest message; otherwise it is RUNNING. The memory variant keeps '
     'the latest message until then and succeeds with it while it is younger than its delay, fails exactly when it is '
     'older. A publisher node publishes its message once when it is new since the last one published, the setup or a '
     'reset, publishes nothing otherwise, and succeeds. There is at most one subscription or publisher at a time, of '
     'the configured type, topic and quality of service; changed settings replace it in the next tick; a reset or '
     'shutdown releases it, and one that cannot be released is reported.',
     ('inputs', 'histories', 'schedules'), 'every order of message arrivals, ticks, unticks, resets and clock readings',
     'There is no unit test of the topic nodes.',
     ['ros_nodes/topic.py'], [('TopicSubscriber, TopicMemorySubscriber, TopicPublisher', 'ros_nodes/topic.py')],
     observe=['result, outputs, calls on publisher/subscription'])
prop('C14', 'A typed container never holds a value outside its type and limits',
     'A container accepts exactly the values of its type that keep its limits, length and allowed values (converted '
     'where documented: keys of dictionaries become strings); any other value is refused with an error and leaves '
     'value and update mark as they were. A static container whose initial value has been used (marked updated) '
     'refuses every further value. An accepted value is read back unchanged, is independent of the object passed in or '
     'read out, and marks the container updated exactly if it differs from the value before. Clearing removes the '
     'value of a dynamic container and leaves a static one alone. A reference accepts nothing until it is resolved and '
     'then exactly what the type it refers to accepts. The default of a static number lies within its limits.',
     ('inputs', 'histories'), 'every type, every limit, every value, every history of set, serialise, reset',
     'Tests sample a handful of values per type.',
     ['data_types.py'], [('DataContainer.set_value and its overrides', 'data_types.py')], observe=['get_value, is_updated'])
prop('C15', 'A wiring declared compatible never delivers a value its target rejects',
     'A source container is compatible with a target container exactly if it is of the same type and each constraint '
     'it declares (limits, length, allowed values, element type, interface, message class, static or dynamic use) is '
     'at least as narrow as that of the target; then the target accepts every value the source can hold and holds '
     'exactly that value. Compatibility is reflexive, ignores whether elements of a list are static, and is the same '
     'between run-time types, where a reference counts as the type it refers to. Containers of different types are '
     'never compatible.',
     ('inputs', 'configurations'), 'every pair of container types with every choice of limits and every value',
     'Tests compare a small table of pairs; the implication quantifies over all limits and values.',
     ['data_types.py'], [('is_compatible of every container', 'data_types.py')], observe=['is_compatible, set_value'])
prop('C16', 'Values and types survive serialisation unchanged',
     'The value of a container, written and read by a container of the same type, is the same value; a container '
     'without a value writes nothing; writing changes no container. The type of a container, written as a message and '
     'read, is the same kind of type with the same access, is written in the same way, and accepts the same values. '
     'Text that is not the written form of a value is refused by an error or a type error that leaves the container as '
     'it was, or gives it a legal value (of messages the class is checked, not the types of their fields); a message '
     'that names no known type is refused.',
     ('inputs', 'configurations'), 'every container type, every value it can hold, every string fed to the parser',
     'Tests round-trip a few values; nested types are not covered.',
     ['data_types.py'], [('serialize_value, deserialize_value, serialize_type, from_dict', 'data_types.py')],
     observe=['serialised strings, values'])
prop('C17', 'Node configuration is isolated per node and keeps its declared data',
     'Every node has its own copy of the data its class declares: no operation on one node changes the data of another '
     'node or of the class. Outputs are dynamic only and never hold a type; a reference names a type among the inputs '
     'and follows the type chosen for its node. Inputs given on construction are taken over with their value if and '
     'only if they are declared and compatible, otherwise construction is refused; data a node adds are refused if and '
     'only if they are declared already; combining configurations reports mismatches and replaces no declared data. '
     'Reading or setting data under an unknown name reports an error.',
     ('inputs', 'histories', 'configurations'), 'every declared configuration, every pair of nodes, every order of operations',
     'Tests compare single configurations.',
     ['node_config.py', 'node.py'], [('NodeConfig.copy, extend', 'node_config.py'), ('Node.__init__, add_extra_inputs', 'node.py')],
     observe=['node.inputs, node.outputs'])
prop('C18', 'Wired data reaches every subscriber, once, and only when it is fresh',
     'When the outputs of a node are pushed (as after each of its ticks), exactly the inputs wired to outputs updated '
     'in that tick, and the data outside named after them, hold the value of the output and are marked updated if it '
     'changed; all other data stay as they are, and pushing data in from outside likewise reaches exactly the inputs '
     'named. A wiring is valid exactly if its data exist, the input is no constant and its type fits; then no value of '
     'the output is refused. Wiring and unwiring requests add or remove exactly what was asked for, or report an error '
     'and change nothing. The published wiring data show every wiring once with its value, and whether it has arrived.',
     ('inputs', 'histories', 'configurations'), 'every set of wirings over any nodes, every order of pushes and changes',
     'Tests use a fixed handful of wirings.',
     ['data_flow_manager.py', 'node.py'], [('DataFlowManager', 'data_flow_manager.py')],
     [('wirings, subscriptions', 'registered wirings', 'data_flow_manager.py')], ['input values, updated flags, wirings'])
prop('C19', 'Parent and child links stay consistent under node-level edits',
     'After any history of adding and removing children, a node is listed as a child at most once, its parent is the '
     'node that lists it, and no node has more children than its class allows. A child is added at the position asked '
     'for (by default at the end) and the other children keep their order; a child is refused if there is no room or '
     'one with its id, and removing a node that is no child is refused; refused operations change nothing, and no '
     'operation changes other nodes. All descendants of a node are listed once, parents first.',
     ('inputs', 'histories'), 'every number of children, position and history of operations',
     'Tests add and remove one or two children.',
     ['node.py'], [('add_child, remove_child, find_node', 'node.py')], observe=['children, parent'])
prop('C20', 'Every tree edit keeps the tree a well-formed tree with consistent wirings',
     'After any successful edit request (add, remove, move, replace, morph, set options, rename, wire, unwire, clear) '
     'every node is known under its id, parents and children are nodes of the tree and agree, there are no cycles, no '
     'node has more children than its class allows, and every wiring connects data of nodes of the tree that fit. The '
     'edit has exactly the effect it was asked for: other nodes, their order, options and wirings stay as they are, '
     'removed nodes take their wirings with them, and a node that is changed keeps its place, its children and the '
     'wirings that still fit. A request that can be carried out is carried out, and the structure published afterwards '
     'describes this tree.',
     ('histories', 'inputs'), 'every history of edit requests over trees of any shape',
     'Tests run a fixed script of single edits.',
     ['tree_edit_manager.py', 'node.py'], [('TreeEditManager requests', 'tree_edit_manager.py')],
     observe=['responses, tree structure'])
prop('C21', 'A refused edit leaves the tree and its data exactly as they were',
     'When an edit request (other than loading a tree) reports failure, the tree, its nodes, their data, links, '
     'options and wirings are what they were before, and a reason is reported. Requests with unknown or malformed ids, '
     'unknown classes, invalid or unknown options, a parent or node without room for the children it would get, a move '
     'or replacement that would make a cycle, or wirings that do not exist or do not fit are refused.',
     ('histories', 'inputs'), 'every edit request that is refused, in every tree',
     'Tests check the response of a few refused requests but not the tree afterwards.',
     ['tree_edit_manager.py'], [('TreeEditManager requests', 'tree_edit_manager.py')], observe=['tree structure after the response'])
prop('C22', 'The tree can be edited only while it is not running',
     'Every request that changes the structure, options, wirings or name of the tree (adding, removing, moving, '
     'morphing, replacing nodes, options, name, wiring, unwiring, clearing, loading, reloading) is refused, without '
     'touching the tree, unless the tree is in the state EDITABLE; in that state it is carried out.',
     ('inputs', 'configurations'), 'every edit request, every execution state',
     'Tests exercise the refusal for few requests and states.',
     ['tree_edit_manager.py', 'tree_exec_manager.py', 'helpers.py'], [('is_edit_possible', 'helpers.py')], observe=['response, tree'])
prop('C23', 'Execution commands follow the documented state machine',
     'For every execution command, in every state the tree can be in: in the error state all but SHUTDOWN are refused '
     'and nothing changes; DO_NOTHING succeeds and, like an unknown command, changes nothing; while a tick thread '
     'runs, ticking, resetting and SETUP_AND_SHUTDOWN are refused and no second thread is started; TICK_ONCE succeeds '
     'exactly if it leaves the tree waiting for the next tick; TICK_PERIODICALLY and TICK_UNTIL_RESULT leave it '
     'ticking at the frequency asked for; STOP of a ticking tree succeeds exactly if it leaves the tree idle, STOP of '
     'a waiting one unticks the root, any other STOP does not succeed; RESET resets the root and leaves the tree idle; '
     'SHUTDOWN waits for the tick thread, shuts the root down and leaves the tree editable. A command that succeeds '
     'names the state the tree is in, one that fails names no state the tree was not in, and a new state is published.',
     ('histories', 'inputs'), 'every execution state, every command, every outcome of the root\'s operations',
     'Tests sample command/state pairs.',
     ['tree_exec_manager.py'], [('control_execution', 'tree_exec_manager.py')], observe=['response, state'])
prop('C24', 'An error or shutdown while ticking ends in a defined state and is published',
     'A tick thread, for any number of ticks: a tree without exactly one root, or with a missing parent, is not ticked '
     'and ends in the error state; the root is set up first if it was not; incoming data is pushed before every tick '
     'of the root; a single tick ticks once and leaves the tree waiting; ticking until a result ends with the first '
     'result, periodic ticking only by a stop request; then the root is unticked once and the tree is idle; after any '
     'error nothing more is done and the tree is in the error state. The state that ticking ends in is published.',
     ('histories', 'fault_sequences'), 'every sequence of root results and requests that arrive between ticks',
     'Tests replace the thread and tick once.',
     ['tree_exec_manager.py'], [('_tick_tree, tick', 'tree_exec_manager.py')], observe=['state, calls on the root'])
prop('C25', 'Saving and loading a tree reproduces it; invalid trees are refused',
     'Loading the message of a tree with nodes, or the file it was saved to, gives a tree of the same nodes, options, '
     'wirings, structure and name, whose message is the same, also when it is loaded again; every node of the library '
     'is reproduced from its message. A message with unknown classes or modules, malformed, repeated or dangling ids, '
     'nodes with two parents or too many children, invalid or undeclared options, or wirings that do not fit is '
     'refused, and so is a file that does not contain exactly one tree: the reason is reported, nothing is raised, and '
     'the tree can still be edited and loaded.',
     ('inputs', 'configurations'), 'every tree that the edit requests can build, every malformed message',
     'Tests load a few fixed files.',
     ['tree_exec_manager.py', 'node.py'], [('load_tree, instantiate_node_from_msg, to_structure_msg', 'tree_exec_manager.py')],
     observe=['structure messages'])
prop('C26', 'Utility bounds of composite nodes enclose what their children allow',
     'The utility bounds a composite reports are a function of those of its children: a Sequence or Fallback declares '
     'exactly the cost bounds that its children determine (all children for the one result, the cheapest or dearest '
     'first child that decides for the other), a Parallel or ParallelFailureTolerance declares a bound exactly if '
     'every child does, namely the cheapest or dearest sum over the number of children that decides its result, and a '
     'decorator declares its child\'s bounds. So the lower bound never exceeds the upper bound if that holds for the '
     'children. A composite with a child that cannot execute says it cannot execute (only Optional can).',
     ('inputs',), 'every number of children and every combination of their bounds',
     'There is no unit test of the utility calculation.',
     ['nodes/sequence.py', 'nodes/fallback.py', 'nodes/parallel.py', 'nodes/decorators.py', 'node.py'],
     [('calculate_utility_sequence, calculate_utility_fallback, Parallel._do_calculate_utility', 'nodes/')],
     observe=['calculate_utility()'])
prop('C27', 'Package files are saved only where and how the request allows',
     'Saving a tree into a storage folder writes one file, inside that folder, with the tree and the ROS version but '
     'without the path of the tree. A file that is already there stays as it is unless the request allows overwriting; '
     'if it allows renaming, a new name that is not taken, in the same folder and with the same extension, is chosen '
     'instead. Every other request (another folder, a name that leads out of the folder, a folder in place of the '
     'file, a tree that cannot be written) is refused with a reason and changes no file. Only storage folders are '
     'listed, with every file in them.',
     ('inputs', 'histories'), 'every file name, directory content and overwrite/rename choice',
     'Tests mock the file system for a few names.',
     ['package_manager.py', 'helpers.py'], [('save_tree', 'package_manager.py')], observe=['files on disk, response'])
prop('C28', 'Helper functions meet their contracts for every argument',
     'The helpers do what their callers rely on: incrementing a name raises the number after its last underscore by '
     'one, or adds _2, so names never repeat; a unique path is not taken, in the same folder with the same extension, '
     'and the given one if it is free; ids convert to text and back unchanged and other text is an error; a wiring has '
     'the ids of its two ends; limits are those of the ROS types; attributes are read and set by dotted paths and '
     'nothing else changes; results follow the laws of Ok and Err.',
     ('inputs',), 'every string, id and type name',
     'Tests use sample strings.',
     ['helpers.py', 'ros_helpers.py'], [('helpers', 'helpers.py')], observe=['return values'])
prop('C29', 'Debug, log and subtree bookkeeping mirrors the tree and nothing else',
     'Recording debug information, log messages and nested trees never changes results: published tick times are those of '
     'the tree\'s nodes, every message that is kept appears once with its level and node, and exactly the nested trees that '
     'were added and not removed are published.',
     ('histories',), 'every order of ticks, log calls, additions and removals',
     'Tests cover subtree bookkeeping with one subtree.',
     ['debug_manager.py', 'logging_manager.py', 'subtree_manager.py'],
     [('DebugManager, LoggingManager, SubtreeManager', 'debug_manager.py')], observe=['published messages'])
prop('C30', 'Edits and ticks running in different threads never interleave harmfully',
     'Edit and execution requests that arrive while another thread ticks the tree behave as if they came before or after '
     'that tick.',
     ('schedules',), 'every interleaving of the ticking thread with service callbacks',
     'Tests are single threaded.',
     ['tree_exec_manager.py', 'tree_edit_manager.py'], [('locks', 'tree_exec_manager.py')], observe=['responses, tree'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P))
