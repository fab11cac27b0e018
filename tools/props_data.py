# -*- coding: utf-8 -*-
prop('C01', 'Node life cycle: training phases, execution and inversion happen in order',
 'A node accepts training data only while its training is open, stop_training closes exactly one phase (and is refused before any data of a phase has been seen, except where a node trains without data), and execution closes an open phase and is refused while later phases remain. After the last phase a node is never trainable again, a non-trainable node refuses to train, a non-invertible node refuses to invert, and a refused call changes nothing.',
 ['histories', 'configurations'],
 'every sequence of public calls (train, stop_training, execute, call, inverse, save-copy, queries) on nodes with every combination of trainable / multi-phase / invertible / supervised behaviour',
 'tests use a few straight-line call orders on a few nodes; the guarantee is about every order of calls.',
 ['mdp/signal_node.py'],
 [('phase bookkeeping', 'Node.train / stop_training / _if_training_stop_training'), ('guards', 'Node._check_train_args, _pre_execution_checks, _pre_inversion_checks')],
 [('_training, _train_phase, _train_phase_started', 'open?, phase index, data seen in this phase', 'mdp/signal_node.py')],
 ['Node.train/stop_training/execute/inverse', 'is_training, get_current_train_phase, get_remaining_train_phase'])

prop('C02', 'Node dimensions and dtype are set once and every output respects them',
 'For every node class of the library the input dimension, output dimension and dtype of a node are unset or fixed: once fixed they never change to another value and an attempt to change them, or to feed data that contradicts them, raises and leaves all three unchanged. Whatever a node returns from execute or inverse has as many rows as it was given (except for the documented window nodes), a width equal to the declared output or input dimension, and the node dtype.',
 ['histories', 'inputs', 'configurations'],
 'every sequence of construct / set / train / stop / execute / inverse calls on every node class in mdp.nodes, with consistent and contradictory data',
 'generic tests check one fixed random input per node after a successful run, never contradictory setters or data in the middle of a history.',
 ['mdp/signal_node.py', 'mdp/nodes/*.py'],
 [('set-once setters', 'Node.set_input_dim / set_output_dim / set_dtype'), ('input checks', 'Node._check_input, _check_output')],
 [('_input_dim, _output_dim, _dtype', 'fixed or unset', 'mdp/signal_node.py')],
 ['input_dim, output_dim, dtype properties', 'shape and dtype of results'])

prop('C03', 'Flow training feeds every node the right data, once per phase, in order',
 'Training a flow trains its trainable nodes strictly in order: each phase of a node sees exactly the chunks of that node\'s iterable in order, each processed by all earlier (by then trained) nodes, with the supervision arguments of the chunk, and is then closed; later nodes are not touched. A node without iterable or already trained is skipped, and an iterator that cannot be repeated, an empty iterable, wrong argument counts and wrong iterable lists are refused with an error at the documented point.',
 ['programs', 'inputs', 'configurations'],
 'all flows of up to three nodes of all trainability / phase / argument kinds and all iterable shapes (arrays, None, lists, restartable and one-shot iterators, argument tuples, errors in the middle)',
 'tests train a handful of flows; they never enumerate node kinds against iterable kinds nor errors at each position.',
 ['mdp/linear_flows.py'],
 [('sequential training', 'Flow.train / _train_node'), ('sanity checks', 'Flow._train_check_iterables')],
 [('flow', 'node list', 'mdp/linear_flows.py')],
 ['Flow.train', 'what each node is given'])

prop('C04', 'A Flow is a Python list of nodes restricted to consistent dimensions',
 'Every container operation of a flow (indexing, slicing, assignment, deletion, append, insert, extend, pop, concatenation in both forms, membership, length, iteration) acts exactly as on a Python list of the same nodes, and derived flows are new flows of the same class. An operation whose argument is not a node, or whose result would connect nodes of contradicting dimensions, raises and leaves the flow exactly as it was.',
 ['histories', 'inputs'],
 'all sequences of container operations with all indices, slices and argument forms over nodes with set, unset and contradicting dimensions',
 'tests try about one successful and one failing call per method.',
 ['mdp/linear_flows.py'],
 [('consistency check on a copy before acceptance', 'Flow.__setitem__, __delitem__, __add__, __iadd__'), ('dimension check', 'Flow._check_nodes_consistency')],
 [('flow', 'node list', 'mdp/linear_flows.py')],
 ['list protocol of Flow'])

prop('C05', 'Flow execution is the composition of its nodes, inversion the reverse',
 'Executing a flow on an array equals passing it through its nodes in order (optionally up to a given node), executing on an iterable equals concatenating the results chunk by chunk, and inverting passes it through all nodes backwards with the same chunk rule. A node that raises makes the whole call raise a flow error naming that node, no later node runs, and execution of an untrained flow is refused or closes the open phases exactly as the nodes themselves do.',
 ['inputs', 'programs', 'fault_sequences'],
 'all flows of up to three nodes, all ways to pass data (array, lists, generators, empty), every nodenr, every node failing',
 'tests execute a few fixed flows.',
 ['mdp/linear_flows.py'],
 [('sequential execution', 'Flow.execute / _execute_seq / inverse / _inverse_seq'), ('error propagation', 'Flow._propagate_exception')],
 [], ['Flow.execute, Flow.inverse, Flow.__call__'])

prop('C06', 'Checkpoint flows call each checkpoint once, right after its node is trained',
 'Training a checkpoint flow is training the plain flow plus calling every given checkpoint function once, with the node it belongs to, immediately after that node finished its last training phase and before anything happens to the next node. What the checkpoint returns is added to the flow\'s attributes, a checkpoint is not called for a node that was not trained in this run, and a list of wrong length is refused before any training.',
 ['programs', 'configurations', 'fault_sequences'],
 'all flows of up to three nodes, all assignments of checkpoints (none, one per node, list, failing checkpoints) and all iterable shapes',
 'tests use two flows with one kind of checkpoint.',
 ['mdp/linear_flows.py'],
 [('hook after each training stop', 'CheckpointFlow._stop_training_hook / train')],
 [('_checkpoints', 'one function or None per node', 'mdp/linear_flows.py')],
 ['CheckpointFlow.train', 'CheckpointFunction calls'])

prop('C07', 'A crash in a flow keeps what was trained and saves a usable state when asked',
 'When a node fails during training or execution the caller gets a flow error that names the failing node, nodes already trained stay trained and the data seen so far is not lost or duplicated. With crash recovery on, the state of the flow at the failure is written to the requested file and can be loaded again; with it off nothing is written.',
 ['crash_points', 'fault_sequences', 'programs'],
 'a failure at every call of every node, in every operation of flows of up to three nodes, with crash recovery off, on, or with a file name',
 'one test crashes one node at one point.',
 ['mdp/linear_flows.py'],
 [('crash dump', 'Flow._propagate_exception, set_crash_recovery')],
 [('_crash_recovery', 'off / on / file name', 'mdp/linear_flows.py')],
 ['FlowExceptionCR.filename and the file it names'])

prop('C08', 'Extensions change classes while active and leave no trace afterwards',
 'Activating an extension gives every node class exactly the methods and attributes registered for it (a class inherits those of the nearest base class in method resolution order), in the order of activation on top of the originals, and deactivating restores precisely what was visible before. This holds for any nesting through functions, decorators and context managers, including when the body raises, activating an active extension is harmless, and conflicting or unknown extensions are refused without changing anything. A refused activation leaves nothing of the refused extension behind.',
 ['histories', 'programs', 'fault_sequences'],
 'all sequences of activate / deactivate / with / decorator calls with up to three extensions over a small class hierarchy, including conflicting attributes, late subclass creation and exceptions in the body',
 'tests activate and deactivate one or two extensions in nested order.',
 ['mdp/extension.py'],
 [('saving and restoring originals', 'activate_extension / deactivate_extension'), ('nesting-safe activation', 'with_extension, extension context manager')],
 [('_extensions, _active_extensions', 'registered attributes and active set', 'mdp/extension.py')],
 ['get_extensions, get_active_extensions, attributes visible on classes and instances'])

prop('C09', 'The sequential scheduler runs tasks once and returns their results in order',
 'With the plain scheduler every task handed in is run exactly once by the callable in force when it was added, the results come back in the order of the tasks (or as the given result container defines) and each batch of results is handed out exactly once. Fork-mode, user task callables, empty batches, reuse after get_results and shutdown behave the same way, and a task that raises or a task added without any callable raises to the caller and leaves the scheduler usable.',
 ['histories', 'fault_sequences'],
 'all sequences of set_task_callable / add_task / get_results / shutdown calls with failing tasks and all result containers',
 'tests run one happy-path batch per scheduler.',
 ['mdp/parallel/scheduling.py'],
 [('task counter and lock', 'Scheduler.add_task / get_results'), ('ordering', 'OrderedResultContainer'), ('callable isolation', 'TaskCallable.fork, Scheduler._process_task')],
 [('_n_open_tasks, _task_counter, _last_callable_index', 'open tasks, order numbers, callable version', 'mdp/parallel/scheduling.py')],
 ['Scheduler API'])

prop('C10', 'The thread scheduler keeps scheduler semantics under every thread schedule',
 'Under every interleaving of its threads the thread scheduler runs every task exactly once with the callable in force when it was added, returns the results in task order, never runs more than the configured number of tasks at the same time and returns from get_results only when all tasks are done. A task that raises neither blocks it forever nor loses other results.',
 ['schedules', 'histories', 'fault_sequences'],
 'all interleavings of up to three tasks over up to three threads with callable changes in between (model), random and adversarial schedules of the real code at statement granularity',
 'tests run it free, which samples a handful of schedules.',
 ['mdp/parallel/thread_schedule.py', 'mdp/parallel/scheduling.py'],
 [('thread limit', 'ThreadScheduler._process_task'), ('lock around the result container', 'Scheduler._store_result')],
 [('_n_active_threads', 'running tasks', 'mdp/parallel/thread_schedule.py')],
 ['Scheduler API', 'start and end of each task'])

prop('C11', 'The process scheduler delivers every task to one worker with the right callable',
 'Under every interleaving of its threads and worker processes the process scheduler runs every task exactly once with the callable in force when it was added (workers cache callables), returns the results in task order, uses at most the configured number of workers, and shutdown after the results were fetched ends all workers. A task that raises in a worker neither blocks it forever nor loses other results.',
 ['schedules', 'histories', 'fault_sequences'],
 'all interleavings of up to three tasks, two workers and callable changes (model), random schedules of the real scheduler threads with workers under control',
 'tests run a few batches free.',
 ['mdp/parallel/process_schedule.py', 'mdp/parallel/scheduling.py'],
 [('free worker list and callable cache', 'ProcessScheduler._process_task / _task_thread'), ('pickle protocol to the worker', '_process_run')],
 [('_free_processes', 'workers without a task', 'mdp/parallel/process_schedule.py')],
 ['Scheduler API', 'what each worker receives'])

prop('C12', 'Parallel flow training equals sequential training',
'Training a parallel flow with any scheduler that honours the scheduler contract gives every node the same training as the plain flow: each chunk of the node\'s iterable (with its extra training arguments) is seen exactly once per phase, by one fork of the node or, for a node that cannot be forked, by the node itself, and all forks are joined before the phase is closed. Starting a second training or an execution while a training is underway and asking for a task when none is available are refused with an exception and change nothing. After a failed training the flow can be used again. A parallel checkpoint flow calls each node\'s checkpoint function exactly once, when the last training phase of the node is over.',
['schedules', 'programs', 'histories'],
'all flows of up to three nodes of parallel / non-parallel / multi-phase / partly trained / collecting kinds, orders in which a scheduler may finish tasks, all call orders of the task interface',
'tests train a few flows on one schedule.',
['mdp/parallel/parallelflows.py'],
[('task generation and result use', 'ParallelFlow.setup_parallel_training / get_task / use_results'), ('fork and join', 'FlowTrainCallable, TrainResultContainer'), ('checkpoints', 'ParallelCheckpointFlow')],
[('_flownode, _train_data_iterator, _i_train_node', 'node under training and its remaining data', 'mdp/parallel/parallelflows.py')],
['ParallelFlow.train and task API', 'what each node is given'])

prop('C13', 'Parallel flow execution equals sequential execution',
'Executing a parallel flow with any scheduler returns exactly what the plain flow returns for the same iterable (up to the requested node, if one is given): chunk results in the order of the chunks whatever order the tasks finish in. It leaves the nodes as sequential execution would (nodes that collect state while executing are forked and joined). Starting another execution or a training while one is underway and asking for a task when none is available are refused with an exception and change nothing; after a failed execution the flow can be used again.',
['schedules', 'programs', 'histories'],
'all flows of up to three nodes, up to four chunks, completion orders, all call orders of the task interface',
'tests execute a few flows on one schedule.',
['mdp/parallel/parallelflows.py'],
[('execution tasks', 'ParallelFlow.setup_parallel_execution / use_results'), ('ordering and join', 'ExecuteResultContainer, FlowExecuteCallable')],
[], ['ParallelFlow.execute and task API'])

prop('C14', 'BiFlow routes data and messages along targets exactly as the nodes ask',
 'Execution of a bi-flow visits nodes exactly as their returned targets dictate: no target means the next node, relative numbers, node identifiers and the exit code move as documented, and the run ends after the last node, at the exit target, or with an error for an unknown target or one outside of the flow. Each node receives the data and message its predecessor returned, plain nodes carry the message past, and the final data and messages are returned to the caller for single arrays and chunk by chunk for iterables (data and array messages concatenated, numbers added up). Training brings every chunk to the node to be trained through the nodes before it, goes on as long as that node asks, closes each phase of each node once, with its stop message, follows a requested execution phase and calls checkpoints in order; messages given by the caller are the same in all phases, and nodes are reset between chunks. Nodes can be looked up by identifier.',
 ['programs', 'inputs'],
 'all small bi-flows of scripted nodes returning every kind of data / message / target from every position, in execution and training',
 'tests route a few hand-written flows.',
 ['bimdp/biflow.py'],
 [('routing loop', 'BiFlow._execute_seq / _execute_node / _target_to_index'), ('training', 'BiFlow._train_node / _stop_training')],
 [], ['BiFlow.execute, BiFlow.train', 'what each node is given'])

prop('C15', 'BiNode messages reach exactly the arguments they are addressed to',
 'A message passed to a bi-node reaches a method as keyword arguments exactly for the argument names it carries: a key addressed to another node is passed on untouched, a key addressed to this node is delivered and removed, a plain key is delivered and kept, and missing or superfluous keys fall back to defaults. The method to run, the target and the result follow the documented rules: values returned by the method override the remaining message, which is otherwise carried on, a method that takes the whole message replaces it, stored stop results are used unless overridden, and checks and training phases are those of a plain node. A coroutine method goes on where it left off until it ends or the node is reset.',
 ['inputs', 'programs'],
 'all combinations of message keys (plain, addressed to this node, addressed to others), method signatures, method / target entries and result shapes',
 'tests cover a few combinations.',
 ['bimdp/binode.py'],
 [('message parsing', 'BiNode._extract_message_key / _get_method'), ('result normalisation', 'BiNode._combine_result / _request_node_id')],
 [], ['BiNode.execute, train, stop_training, inverse'])

prop('C16', 'Layers process each slice of the input with its own node',
 'A layer splits its input by the input dimensions of its nodes, in order, trains and executes every node on its own slice and concatenates the outputs in order; inversion does the reverse. A layer follows its nodes through their training phases (nodes with fewer phases are left alone once trained), its dimensions and dtype are those of its nodes, contradictions are refused, and a clone layer applies one single node to all slices.',
 ['histories', 'configurations', 'inputs'],
 'all layers of up to three nodes with different dimensions and phase counts, all call orders, cloned, same-input and plain layers',
 'tests use a few fixed layers.',
 ['mdp/hinet/layer.py'],
 [('slicing and concatenation', 'Layer._train / _execute / _inverse'), ('phase handling', 'Layer._get_train_seq, _stop_training')],
 [], ['Layer, CloneLayer, SameInputLayer through the Node API'])

prop('C17', 'A FlowNode behaves as one node that is its flow',
 'Wrapped in a flow node, a flow trains, executes and inverts as one node: its training phases are those of its nodes in order, each phase feeds exactly the node under training with data processed by the nodes before it, execution and inversion equal those of the flow, and it is trainable or invertible exactly when the flow allows. Its dimensions are those of the first and last node, setting them is passed on to those nodes, and copying a flow node copies the flow.',
 ['histories', 'configurations'],
 'all flow nodes over up to three nodes of all trainability / phase kinds, pretrained or not, all call orders',
 'tests use two or three flows.',
 ['mdp/hinet/flownode.py'],
 [('phase sequence', 'FlowNode._get_train_seq'), ('dimension forwarding', 'FlowNode._set_input_dim / _set_output_dim')],
 [], ['FlowNode through the Node API'])

prop('C18', 'A switchboard copies exactly the connected input components, and inverts that',
 'A switchboard output component is the connected input component, for every connection list; inversion restores the input exactly when every input component is connected once, and is refused otherwise. Wrong connections and dimensions are refused, mean inversion averages over the connections of a component, and switchboards never change their input.',
 ['inputs', 'configurations'],
 'all connection lists over up to four inputs and outputs, including out-of-range and repeated ones',
 'tests use a few lists.',
 ['mdp/hinet/switchboard.py'],
 [('index gather', 'Switchboard._execute / _inverse'), ('invertibility check', 'Switchboard.is_invertible'), ('mean inverse', 'MeanInverseSwitchboard')],
 [], ['Switchboard execute / inverse / is_invertible'])

prop('C19', 'Graph mutations keep nodes, edges and degrees consistent',
 'After any sequence of additions and removals the graph lists exactly the nodes and edges that were added and not removed, removing a node removes exactly the edges that touch it, every edge appears once at its head and once at its tail, and degrees and neighbours agree with the edges. Searches visit exactly the nodes reachable along edge direction (or ignoring it for undirected searches), each once in the documented order, and topological sort and connected components are correct for every graph, cyclic or not.',
 ['histories', 'inputs'],
 'all sequences of graph mutations up to four nodes including self-loops and parallel edges, all queries after each',
 'tests build a few fixed graphs.',
 ['mdp/graph/graph.py'],
 [('edge lists at both ends', 'Graph.add_edge / remove_edge / remove_node'), ('searches', 'Graph.topological_sort, dfs, bfs, undirected_dfs, connected_components')],
 [('nodes, edges, node.ein, node.eout', 'adjacency kept in three places', 'mdp/graph/graph.py')],
 ['Graph API'])

prop('C20', 'Execution caching is invisible except for saved work',
 'With caching active for a class, an instance or everything, a cached node returns for every input exactly what it would return uncached, whatever was executed before, by whichever node, in whichever cache directory; nodes not selected are never cached. A repeated input is served from the cache without running the node, and after deactivation or leaving the context nothing is cached any more.',
 ['histories', 'inputs', 'configurations'],
 'all short histories of activation / deactivation / context nesting, training, parameter changes and executions over several nodes, inputs and cache directories',
 'tests check one node with one input.',
 ['mdp/caching/caching_extension.py'],
 [('cache key and selection', 'CacheExecuteExtensionNode.execute, set_cachedir, activate_caching'), ],
 [('_cached_methods, cached classes and instances', 'what is selected', 'mdp/caching/caching_extension.py')],
 ['execute of cached nodes', 'number of real executions'])

prop('C21', 'An online node may be executed at any time while it learns',
 'An online node can be executed and inverted at any time, before, between and after training calls, without ending its training; every training call advances the iteration count by the number of samples seen (batch mode: by the documented step), and its training can be stopped once and never continues afterwards. The result of execution is that of the parameters learned from the data so far, independent of executions in between.',
 ['histories', 'configurations'],
 'all short sequences of train / execute / inverse / stop / copy calls over online nodes with one or several phases, incremental and batch',
 'tests follow one straight-line order.',
 ['mdp/signal_node_online.py', 'mdp/nodes/stats_nodes_online.py'],
 [('non-stopping execution', 'OnlineNode._pre_execution_checks / _pre_inversion_checks'), ('iteration counter', 'OnlineNode._train_seq, _train_iteration')],
 [], ['OnlineNode API'])

prop('C22', 'Online flows train all nodes on every chunk at once',
 'Training an online flow takes each chunk of the single iterable once through all nodes in order: a node still in training is trained with the chunk as produced by its predecessors (already updated by this chunk) and its own arguments, then executed to feed the next. A circular flow additionally loops the chunk the configured number of times, feeds its own stored output back when external input is ignored, and starts and ends at the chosen input and output node; container operations keep the node sequence admissible or raise without effect.',
 ['programs', 'histories', 'inputs'],
 'all online flows of up to three nodes of all kinds, all iterable shapes, all settings of a circular flow and container operations in between',
 'tests train a few flows of one shape.',
 ['mdp/linear_flows_online.py', 'mdp/hinet/flownode_online.py', 'mdp/hinet/layer_online.py'],
 [('simultaneous training', 'OnlineFlow._train_nodes'), ('circular queue', 'CircularOnlineFlow.set_input_node / set_output_node / _train_nodes'), ('admissible sequences', 'OnlineFlow._check_compatibility')],
 [('flow, output_node_idx, _stored_input', 'queue, output position, fed-back data', 'mdp/linear_flows_online.py')],
 ['OnlineFlow and CircularOnlineFlow API', 'what each node is given'])

prop('C23', 'Time window and delay nodes align every sample with its window',
 'For every input length, number of frames, gap and delay, each output row of a time window node holds the input rows at the documented offsets and nothing else, the number of rows is the documented one, and inputs shorter than the window are refused or padded as documented. The sliding variants return the same rows when the input arrives in pieces of any size as when it arrives at once, and the pseudo-inverse restores the original rows.',
 ['inputs', 'histories'],
 'all input lengths up to eight, all frames / gaps / delays up to four, all splits of the input into pieces',
 'tests use one input per node.',
 ['mdp/nodes/misc_nodes.py'],
 [('window assembly', 'TimeFramesNode._execute / pseudo_inverse, TimeDelayNode._execute'), ('buffer over pieces', 'TimeDelaySlidingWindowNode._execute')],
 [], ['execute / inverse / pseudo_inverse of the time nodes'])

prop('C24', 'Accumulated statistics do not depend on how data was cut into chunks',
 'The covariance, cross-covariance, delayed and multiple-delayed covariance accumulators report, for every cut of the data into chunks, the mean, matrix and sample count computed from the definition on the whole data (for delayed ones on the pairs within each chunk). Time-weighted matrices and the groups of matrices used by blind source separation (weighting, rotation, appending, selection) follow their definitions. Asking for the result resets the accumulator where documented, and accumulators can be merged or reused without leaking earlier data.',
 ['inputs', 'histories'],
 'all cuts of integer data sequences into chunks, all delays, biased and unbiased, with and without mean removal, resets in between',
 'tests use one or two cuts of random data.',
 ['mdp/utils/covariance.py'],
 [('running sums', 'CovarianceMatrix.update / fix, DelayCovarianceMatrix, MultipleCovarianceMatrices, CrossCovarianceMatrix')],
 [('_cov_mtx, _avg, _tlen', 'running sums', 'mdp/utils/covariance.py')],
 ['update, fix'])

prop('C25', 'Copies, pickles and saved nodes and flows are independent and equal',
 'A copy or a saved-and-loaded node, layer, flow node or flow (of any class of the library) is in the same state as the original, continues exactly as the original would, and shares nothing with it: whatever happens to one, even if all it holds is overwritten, is never visible in the other. Copying or saving never changes the original, saving to a file or to a string with any pickle protocol gives the same object, and this holds at any point of a training.',
 ['histories', 'configurations'],
 'all short histories with copy / save / load at any point, followed by diverging operations on original and copy, for flat and nested structures',
 'tests copy one trained node and compare one output.',
 ['mdp/signal_node.py', 'mdp/linear_flows.py', 'mdp/hinet/flownode.py'],
 [('deep copy and pickle', 'Node.copy / save, Flow.copy / save, FlowNode.copy')],
 [], ['copy, save, loads and later behaviour'])

prop('C26', 'Expansions yield every basis function exactly once',
 'A polynomial expansion of degree d maps an n-dimensional input to every monomial of the input components of degree one to d, each exactly once and in the documented order, and the output dimension it announces is the number of those monomials. Recursive expansions do the same for the products of the functions of their family (standard, Legendre, Chebyshev, rational Legendre or user-supplied), the normalizing one first moves the data into the domain of the family with the transformation prescribed by all its training data, and out-of-domain data is refused if checking was asked for. Expansions built from given functions apply each to the whole input in order; radial basis expansions evaluate each Gaussian as defined. Executing never changes the input.',
 ['inputs', 'configurations'],
 'all input dimensions up to three, degrees up to five, all families, integer inputs with exact rational results',
 'tests check a few sizes.',
 ['mdp/nodes/expansion_nodes.py'],
 [('index recursion', '_ExpansionNode, PolynomialExpansionNode._execute, expanded_dim'), ('function expansion', 'GeneralExpansionNode')],
 [], ['execute, output_dim'])

prop('C27', 'Classifiers answer with labels they were trained on, independent of chunking',
 'Trained on labelled chunks in any cut and any form the documentation allows (one label per sample as list, tuple or array, or one label per chunk; numbers or strings), a classifier stores exactly the given pairs and answers each query with the label its rule prescribes: the nearest class mean, the majority among the k nearest samples, the most probable class under the fitted Gaussians, the relative frequencies, the perceptron rule, a fixed point of the Hopfield dynamics, the nearest cluster mean, the sign of the sum. Label, probability, rank and execute interfaces agree with each other, and degenerate training data is refused instead of giving meaningless answers.',
 ['inputs', 'histories'],
 'all cuts of small labelled integer data sets, all label forms, all query points on a grid',
 'tests check a few well-separated clusters.',
 ['mdp/classifier_node.py', 'mdp/nodes/classifier_nodes.py'],
 [('label handling', 'ClassifierCumulator._train, ClassifierNode.label/prob/rank'), ('rules', 'SignumClassifier, NearestMeanClassifier, KNNClassifier, GaussianClassifier')],
 [], ['label, prob, rank'])

prop('C28', 'Two-dimensional switchboards tile the input exactly as documented',
 'For every image size, field size, field spacing and channel width, a 2-d switchboard produces exactly the fields the documentation describes: fields in row order, pixels within a field in row order, all channels of a pixel together, and announces the matching numbers of fields and dimensions. Parameters that do not tile the image are refused unless unused channels are allowed, and the factory builds the switchboard that fits its predecessor.',
 ['configurations', 'inputs'],
 'all image sizes up to six by six, all field sizes and spacings, channel widths up to two (that the fields cover the image up to its border; a spacing larger than the field may leave gaps)',
 'tests check a few sizes.',
 ['mdp/hinet/switchboard.py', 'mdp/hinet/switchboard_factory.py'],
 [('tiling', 'Rectangular2dSwitchboard, DoubleRect2dSwitchboard, DoubleRhomb2dSwitchboard'), ('factory', 'FactoryRectangular2dSwitchboard.create_switchboard ...')],
 [], ['connections, out_channels_xy, output_dim'])

prop('C29', 'Forked nodes, joined, are the sequentially trained node',
 'For every node class with parallel support, forking it, training the forks on any partition of the chunks and joining them in any order leaves the node as if it had been trained on all chunks itself: same sample counts, same accumulated data, same phase. A fork starts empty in the right phase, a node with parts that collect data during execution gets back everything its forks collected, and joining never loses or double-counts what the node or any fork has seen.',
 ['schedules', 'inputs', 'histories'],
 'all partitions of up to four chunks onto up to three forks and all join orders, repeated rounds of forking, for every parallel node class',
 'tests check two forks of a few classes.',
 ['mdp/parallel/parallelnodes.py', 'mdp/parallel/parallelhinet.py', 'mdp/parallel/parallelclassifiers.py'],
 [('fork and join', 'ParallelExtensionNode.fork / join, _fork, _join, _default_fork')],
 [], ['fork, join, results of training'])

prop('C30', 'Nodes that analyse what they see report exactly that',
 'The hit parade reports, for every cut of the data into chunks, the local extremes its rule defines: at most n values with the times they really occurred, further apart than the gap, always with the global extreme among them. The history of a histogram node is the data it was trained on (in the node or in the file), fixed and learned cutoffs clip exactly what lies beyond the bounds that the asked fractions of the training data give, eta values equal their definition, noise is added or multiplied as the noise function gives it, and nodes that only look at the data pass it on unchanged. No node holds on to memory of the caller.',
 ['inputs', 'histories'],
 'all integer sequences of length up to five cut into chunks, all sizes, gaps, fractions and bounds; random longer ones of all data types',
 'tests use one random sequence.',
 ['mdp/nodes/misc_nodes.py'],
 [('collector', '_OneDimensionalHitParade, HitParadeNode'), ('fit and cut', 'HistogramNode via HistoParadeNode, AdaptiveCutoffNode, CutoffNode'), ('EtaComputerNode', 'EtaComputerNode')],
 [], ['get_maxima, get_minima, get_eta, execute'])

prop('C31', 'Bi-directional layers and flow nodes keep messages apart and phases aligned',
 'A bi-layer gives every node its slice of the data and of array messages, leaves other messages alone, reassembles outputs and messages in node order and combines targets; a clone bi-layer does this with one node or with one copy per slice and can switch between both without changing results. A bi-flow node acts as one node that is its bi-flow, and a bi-switchboard routes array message entries like the data.',
 ['programs', 'inputs', 'configurations'],
 'all bi-layers of up to three scripted nodes, messages with array and other entries, all result shapes, switching of copies at any point',
 'tests cover one or two cases each.',
 ['bimdp/hinet/bilayer.py', 'bimdp/hinet/biflownode.py', 'bimdp/hinet/biswitchboard.py'],
 [('slicing of messages', 'CloneBiLayer._get_split_message, _execute'), ('copies', 'CloneBiLayer._set_use_copies'), ('flow as node', 'BiFlowNode._get_method')],
 [], ['execute, train, stop_training of the hinet binodes'])
