#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is edited here, the .jsonl is what is read)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,title)
    P.append(d)
G='src/GraphCtrl/'
E=G+'GraphElement/'
T='src/UtilsCtrl/ThreadPool/'

prop('C01','Elements run exactly once, after everything they depend on',
 'In every successful run of a pipeline each registered element executes exactly once (times its loop count), and it starts only after every element it depends on has finished in that same run. This holds for every acyclic dependency graph, every engine type, every thread-pool size and schedule, and for every one of several consecutive runs.',
 ['programs','schedules','configurations'],'all acyclic graphs over the registered elements, registration orders, engine types, pool sizes, thread schedules, repeated runs',
 'The functional tests use a handful of fixed graphs on whatever schedule the OS gives them; an ordering error needs a particular graph shape and interleaving.',
 [E+'_GEngine/GDynamicEngine/GDynamicEngine.cpp',E+'_GEngine/GTopoEngine/GTopoEngine.cpp',E+'_GEngine/GStaticEngine/GStaticEngine.cpp',E+'GElement.cpp',E+'GElementManager.cpp'],
 [('left-depend counters and shape links of the dynamic engine',E+'_GEngine/GDynamicEngine/GDynamicEngine.cpp'),('topological order of the topo engine',E+'_GEngine/GEngine.h'),('per-run reset of counters',E+'GElement.cpp')],
 ['run() bodies of user nodes'],[('left_depend_','number of unfinished dependencies',E+'GElement.h')])
prop('C02','A cyclic dependency is refused at init, an acyclic one accepted',
 'Initialising a pipeline or a region fails with an error and runs no element body whenever the registered dependencies contain a cycle, at the top level or inside a region; every acyclic dependency graph initialises successfully.',
 ['programs'],'all directed graphs over the registered elements, for every engine type',
 'The tests register only acyclic graphs; the cycle check has to be right for every graph.',
 [E+'_GEngine/GEngine.h',E+'GElementManager.cpp',E+'GElement.cpp'],[('topological pass in engine setup',E+'_GEngine/GEngine.h')],['CStatus of init()'])
prop('C03','Every run returns, on every schedule, whatever elements report',
 'run() and process() of a pipeline whose element bodies return always return themselves: no schedule of the worker threads, no error status, exception, warning status or timing makes the caller or a worker wait forever. Destroying the pipeline afterwards also returns. (A group that waits for its own children needs a pool worker besides the one it occupies.)',
 ['schedules','fault_sequences','programs'],'all thread schedules, positions and kinds of element failure, small graphs, every engine',
 'A lost wakeup needs one specific interleaving of the failing worker with the waiting caller; tests time out at random or never see it.',
 [E+'_GEngine/GDynamicEngine/GDynamicEngine.cpp',T+'Thread/UThreadPrimary.h',T+'UThreadPool.cpp'],[('condition variable hand-over between workers and the waiting caller',E+'_GEngine/GDynamicEngine/GDynamicEngine.cpp')],['return of run()'])
prop('C04','A failing element stops its successors and its error is what run returns',
 'When an element body reports an error (negative code), run() returns an error carrying the code of an element that really failed, no element that directly or transitively depends on the failed one executes in that run, and a run in which nothing failed never returns an error.',
 ['fault_sequences','schedules','programs'],'every element as the failing one, every negative code, several failures at once, all engines and schedules',
 'Tests check one failing node in one graph.',
 [E+'_GEngine/GDynamicEngine/GDynamicEngine.cpp',E+'_GEngine/GTopoEngine/GTopoEngine.cpp',E+'_GEngine/GStaticEngine/GStaticEngine.cpp',E+'GElement.cpp'],[('status folding of engines',E+'_GEngine')],['CStatus of run()'])
prop('C05','An exception thrown by user code becomes an error status, never escapes',
 'A CException thrown from an element body is reported as an error (crash) status of run() or process(), never propagates out of them and never terminates the program, in every element kind, engine and thread. An exception thrown from an element\'s init or destroy hook surfaces as an error status or as that CException at the caller of init() or destroy(), never in another thread, and the element bodies of a pipeline whose init failed do not run.',
 ['fault_sequences','configurations','programs'],'which element throws, what it throws, in which phase, which engine or group runs it',
 'Tests throw from one place under the default engine.',
 [E+'GElement.cpp',E+'GElementManager.cpp','src/CBasic/CException.h',G+'GraphPipeline/GPipeline.cpp'],[('catch blocks around user functions',E+'GElement.cpp'),('crashed handler',E+'GElement.cpp')],['pipeline API calls'])
prop('C06','Loop counts and hold loops repeat the body exactly as requested',
 'An element with loop count n runs its body exactly n times per pipeline run, an element whose hold hook answers true keeps repeating until it answers false, and both stop immediately when the body returns an error (a negative code); groups repeat their whole content the same way.',
 ['inputs','fault_sequences','programs'],'all loop counts (including 0), hold answers and failing iterations within bounds, nodes and groups',
 'Tests use a few loop counts on successful runs only.',
 [E+'GElement.cpp',E+'GElement.h'],[('fatProcessor loop',E+'GElement.cpp')],['number of run() calls'])
prop('C07','init and destroy reach every element exactly once and in level order',
 'Pipeline init() calls the init hook of each element exactly once before any run hook, in ascending level order, and destroy() calls each destroy hook exactly once; nested children are included. If an init hook fails, init() reports that error and no run hook is called.',
 ['programs','inputs','fault_sequences'],'element levels (any integers), nesting in groups, failing init hooks',
 'Tests use the default level or one fixed assignment and successful inits.',
 [E+'GElementManager.cpp',E+'GElementSorter.h',E+'GGroup/GGroup.cpp'],[('level-sorted element set',E+'GElementSorter.h')],['init()/destroy() hooks'])
prop('C08','Operations in the wrong lifecycle phase are refused without effect',
 'Whatever sequence of init, run, process, destroy and registration calls is made on a pipeline, a call that the current phase does not allow (running or destroying before init, registering elements after init, initialising twice) returns an error and changes nothing, and a call that is allowed works; after destroy, and after an init that failed, the pipeline can be changed, initialised and run again with the same result as the first time.',
 ['histories'],'all call sequences up to a stated length',
 'Tests exercise the intended call order only.',
 [G+'GraphPipeline/GPipeline.cpp',G+'GraphPipeline/GPipeline.h',E+'GElement.cpp'],[('is_init_ assertions','src/CBasic/CStatusInfo.h')],['CStatus of each call'])
prop('C09','A cluster runs its children one after another, in the given order',
 'A cluster executes its children strictly sequentially in the order given, each exactly once per iteration of the cluster, stops at the first child that fails, and reports that child\'s error.',
 ['programs','fault_sequences'],'child counts, loop counts, failing child and code, nesting',
 'Tests check only totals of a counter.',
 [E+'GGroup/GCluster/GCluster.cpp',E+'GGroup/GGroup.cpp'],[('serial loop over children',E+'GGroup/GCluster/GCluster.cpp')],['run() order of children'])
prop('C10','A region is an isolated sub-graph obeying the same ordering rules',
 'Inside a region children obey their own dependencies exactly like pipeline elements do, the region starts only after its own dependencies and counts as finished only when all of its children have finished, and an error of a child is the error of the region. The pool must have a worker left besides those occupied by the groups that wait for their children.',
 ['programs','schedules','fault_sequences'],'graphs inside and outside the region, engine types for both, schedules, failing child',
 'Tests use one or two fixed nested graphs.',
 [E+'GGroup/GRegion/GRegion.cpp',E+'GElementManager.cpp'],[('own element manager and engine per region',E+'GGroup/GRegion/GRegion.cpp')],['run() order'])
prop('C11','A condition runs exactly the children its choice selects',
 'A condition group runs only the child whose index its choose hook returns, the last child for -1, and none for any other value, without error; a multi-condition runs exactly the children whose hook answers true (in order when serial, all of them finished before it returns when parallel) and no other.',
 ['inputs','programs','schedules'],'every integer returned by choose, every subset of matching children, loop repetitions, schedules',
 'Tests use a few fixed indices.',
 [E+'GGroup/GCondition/GCondition.cpp',E+'GGroup/GCondition/GMultiCondition.inl'],[('index dispatch',E+'GGroup/GCondition/GCondition.cpp')],['which children run'])
prop('C12','A some-group waits for the requested number of children, no fewer',
 'A some-group hands every child to the pool and finishes only once at least the requested number of children have finished in this execution of it (or one of them failed), and always finishes when enough of them do, given a pool with workers for the group and its children; a request for more children than it has is an error of the run. No child runs twice in one execution (one that has not begun when the group finishes may be left out as timed out), the errors of all children that ran are reported by run(), and no child is still running or starts once run() has returned.',
 ['schedules','programs','histories'],'child counts, trigger counts, schedules, repeated runs, failing children',
 'Completion order is decided by the scheduler; tests sleep to force one order.',
 [E+'GGroup/GSome/GSome.cpp',E+'GGroup/GSome/GSome.h'],[('wait counter with condition variable',E+'GGroup/GSome/GSome.cpp')],['return of the group, child completions'])
prop('C13','A mutable group executes the graph its reshape hook built for that run',
 'On every run a mutable group runs exactly the children its reshape hook connected or left unconnected, respecting the dependencies set in that reshape and none from earlier runs, and a reshape producing a cycle is reported as an error instead of hanging.',
 ['histories','programs','schedules'],'sequences of reshapes over consecutive runs',
 'Tests reshape in one fixed way.',
 [E+'GGroup/GMutable/GMutable.cpp'],[('reset and rebuild of relations per run',E+'GGroup/GMutable/GMutable.cpp')],['run() order of children'])
prop('C14','Adapters behave as what they wrap',
 'A function element runs the given callables in its phases and returns their status; a singleton element shares one instance whose init and destroy hooks run once for all its uses while its run hook runs at every use; a coordinator of size n adds n secondary threads to the pool, never beyond the pool\'s maximum, a negative one releases that many or reports an error if fewer exist, and its neighbours in the graph run as with any node.',
 ['programs','schedules','inputs'],'statuses returned, number of uses, number of children, schedules',
 'Tests cover one use of each adapter.',
 [E+'GAdapter/GFunction/GFunction.cpp',E+'GAdapter/GSingleton/GSingleton.inl',E+'GAdapter/GCoordinator/GCoordinator.inl'],[('delegation',E+'GAdapter')],['hook calls'])
prop('C15','Element timeouts are reported or tolerated per strategy and never lose work',
 'An element with a timeout whose body is shorter than it is in time, also on an idle pool, and behaves like one without; if it exceeds the timeout, the error strategy makes the run report an error, the hold strategy lets the run continue and waits for the element before the run returns, and the not-hold strategy lets the run continue and return without it; a fence waits for exactly the still-unfinished elements it was told about.',
 ['schedules','configurations'],'whether and when the timeout fires relative to the body, strategy, engines, fences',
 'Tests rely on real sleeping, one ordering each.',
 [E+'GElement.cpp',E+'GAdapter/GFence/GFence.cpp',E+'_GEngine/GDynamicEngine/GDynamicEngine.cpp'],[('async result with timed wait',E+'GElement.cpp')],['CStatus of run, completion of the element'])
prop('C16','Aspects surround their element\'s phases with the right status',
 'Every aspect attached to an element has its begin hook called before and its finish hook after each of init, run and destroy of that element, exactly once per phase execution and in the order the aspects were added, the finish hook receives the status the phase produced, and an error from a begin hook is the phase\'s status and prevents the body, and any finish hook, from running. A body that throws is followed by the crash hook of every aspect instead of the finish hook.',
 ['programs','fault_sequences'],'number of aspects, statuses of body and of hooks, phases, loops',
 'Tests count calls of a single aspect on success.',
 [G+'GraphAspect/GAspectManager.cpp',E+'GElement.cpp'],[('aspect reflection around element functions',G+'GraphAspect/GAspectManager.cpp')],['aspect hooks'])
prop('C17','Parameters are typed, unique per key, set up and reset once per run',
 'For any sequence of parameter operations a key maps to at most one object of the type it was first created with, asking for it with another type or a missing key yields nothing or an error and changes nothing, and every pipeline run calls setup of every parameter once before any element and reset once after all of them, with the run\'s status; a failing setup keeps every element from running and is what the run returns.',
 ['histories','fault_sequences'],'all sequences of create/get/remove/copy over several keys and types; successful and failing runs',
 'Tests create a few parameters in the usual order.',
 [G+'GraphParam/GParamManager.cpp',G+'GraphParam/GParamManager.inl',G+'GraphParam/GParamManagerWrapper.h',G+'GraphPipeline/GPipeline.cpp'],[('params map',G+'GraphParam/GParamManager.inl')],['GParam API, setup/reset hooks'])
prop('C18','Events trigger synchronously or asynchronously exactly as asked',
 'A synchronous notification has finished its trigger when it returns; each asynchronous notification triggers at most once, and exactly once unless it was asked for without waiting and the pipeline is destroyed first; those with the run-finish or destroy wait strategy have all finished when run() or destroy() respectively returns; an unknown event key is an error and triggers nothing.',
 ['schedules','histories'],'sequences of notifications with every strategy, schedules',
 'Async completion relative to run end is a race the tests do not steer.',
 [G+'GraphEvent/GEvent.cpp',G+'GraphEvent/GEventManager.cpp',G+'GraphPipeline/GPipeline.cpp'],[('future lists per strategy',G+'GraphEvent/GEvent.cpp')],['trigger()'])
prop('C19','A stage releases its waiters together, once the threshold arrived',
 'Where a stage is entered by a multiple of its threshold number of elements, none passes it before the number of arrivals of that round has been reached, when it is reached the launch hook runs exactly once and then all elements waiting in that round continue, in every later round as well; an unknown stage key is an error.',
 ['schedules','histories'],'thresholds, arrival orders, several rounds, schedules',
 'A waiter overtaken by the next round needs a precise interleaving.',
 [G+'GraphStage/GStage.cpp',G+'GraphStage/GStageManager.h'],[('counter with condition variable',G+'GraphStage/GStage.cpp')],['enterStage, launch()'])
prop('C20','Daemons tick only between init and destroy, and always stop',
 'A daemon\'s daemonTask runs only between the pipeline\'s init and destroy, never concurrently with itself, keeps repeating while the interval elapses, and destroy() always returns with no further tick after it; an init that fails starts no daemon.',
 ['schedules','histories'],'when the timer fires relative to init and destroy, several daemons, re-initialisation',
 'The tests only see the ticks wall-clock time happens to produce.',
 [G+'GraphDaemon/GDaemon.cpp',G+'GraphDaemon/GDaemonManager.cpp','src/UtilsCtrl/Timer/UTimer.h'],[('timer thread with stop flag','src/UtilsCtrl/Timer/UTimer.h')],['daemonTask'])
prop('C21','Messages of a topic are received in order, once each, as its strategy says',
 'For a topic created with size n, receives deliver sent values exactly once and in sending order; when n values are pending, WAIT blocks the sender until one is taken, REPLACE discards the oldest and DROP the newest; sending to or receiving from an unknown topic, creating a topic again with another type or size, and receiving when nothing arrives in time are errors.',
 ['histories','schedules','inputs'],'sequences of sends and receives with each strategy, capacities, values, concurrent senders and receivers',
 'Tests use one topic and the WAIT strategy on the happy path.',
 [G+'GraphMessage/GMessageManager.h',G+'GraphMessage/GMessage.h',T+'Queue/UAtomicRingBufferQueue.h'],[('ring buffer queue',T+'Queue/UAtomicRingBufferQueue.h')],['send/recv API'])
prop('C22','Published messages reach every current subscriber, and only those',
 'Each value published on a topic is delivered exactly once and in order to every connection bound to it at that moment; connection ids are distinct; a detached connection or dropped topic is no longer reachable, receiving through it or dropping it again is an error, and it never leaves anything that later calls touch after release. (Connections are bound and detached while nobody publishes.)',
 ['histories'],'sequences of bind, publish, subscribe, detach, drop and clear over several topics and connections',
 'Tests bind a few connections and never detach.',
 [G+'GraphMessage/GMessageManager.h'],[('topic and connection maps',G+'GraphMessage/GMessageManager.h')],['pub/sub API'])
prop('C23','The pipeline manager hands a pipeline to one user at a time',
 'A pipeline fetched from the manager is not handed out again until it is released, fetch fails or waits only when none is free, release of a pipeline that is not out is an error, and running through the manager returns the pipeline to it whatever the run\'s status.',
 ['histories','schedules','fault_sequences'],'sequences and interleavings of add, fetch, release, remove and run, failing runs',
 'Tests run the manager with a fixed number of threads on successful runs.',
 [G+'GraphPipeline/GPipelineManager.cpp'],[('free and busy lists under a lock',G+'GraphPipeline/GPipelineManager.cpp')],['manager API'])
prop('C24','Cancel, suspend and resume take effect between elements',
 'After cancel() has returned during a run no further element body starts, the run returns without error, further rounds of a process(n) in progress are given up and a later run works normally; after suspend() has returned during a run no further element starts until resume() (an element that was already due may still start), after which the run completes with every element executed exactly once and no element or caller waits forever. Cancel, suspend or resume on a pipeline that is not initialised is an error.',
 ['schedules','histories'],'when the calls land relative to element starts and ends; engines; schedules',
 'Timing-dependent; tests sleep for fixed times.',
 [G+'GraphPipeline/GPipeline.cpp',E+'GElement.cpp',E+'GElementManager.cpp'],[('per-element state and yield',E+'GElement.cpp')],['element starts, CStatus of run'])
prop('C25','Trimming redundant dependencies never changes reachability',
 'Trimming a pipeline removes exactly the dependencies among its elements, and among the children of its regions, that are implied by others: reachability between every two elements is unchanged, no removed edge remains needed, no kept edge is implied by a longer path, and the reported number of removed edges is exact.',
 ['programs'],'all acyclic graphs up to a stated size',
 'One fixed graph in the tutorial.',
 [E+'_GOptimizer/GTrimOptimizer.h',E+'_GOptimizer/GOptimizer.h'],[('transitive reduction',E+'_GOptimizer/GTrimOptimizer.h')],['dependencies after trim'])
prop('C26','Graph analyses give the exact answer',
 'The reported maximum parallelism of a pipeline equals the size of the largest set of pairwise independent elements, and the separation test answers true exactly when the two given elements can never run at the same time: one depends on the other (directly, through others or through the groups that hold them), they are children of the same cluster, condition or serial multi-condition, or one contains the other.',
 ['programs'],'all acyclic graphs up to a stated size and all pairs of elements',
 'Checked on a single graph.',
 [E+'_GOptimizer/GMaxParaOptimizer.h',E+'_GOptimizer/GSeparateOptimizer.h'],[('matching on the closure',E+'_GOptimizer/GMaxParaOptimizer.h')],['getMaxPara, checkSeparate'])
prop('C27','A serial pipeline run equals a parallel one, on the caller\'s thread',
 'After makeSerial succeeds, running the pipeline executes every element exactly once in dependency order on the calling thread and creates no worker thread (asynchronous events aside); a pipeline that cannot be run serially is refused by makeSerial with an error.',
 ['programs','configurations'],'graphs and groups of each kind, elements with and without timeouts or parallel groups',
 'Tests serialise one simple chain.',
 [G+'GraphPipeline/GPipeline.cpp',E+'GElementManager.cpp',E+'GGroup/GGroup.cpp'],[('serializable checks',E+'GGroup')],['thread ids of bodies'])
prop('C28','Every task given to the thread pool runs exactly once, its future tells how',
 'Every task committed or submitted to a started pool executes exactly once, its future becomes ready with the value or exception the task produced, waiting on it always ends, and destroying the pool waits for running tasks and joins every thread. This holds for every commit strategy, pool size and schedule, and an idle pool does not sleep on a task it is given; a long-time task needs a secondary thread, a prioritised one needs one or room for one.',
 ['schedules','configurations','fault_sequences'],'commit strategies and targets, pool sizes, queue mixes, throwing tasks, schedules',
 'Task loss or double execution needs a particular interleaving of owner, thieves and producers.',
 [T+'UThreadPool.cpp',T+'UThreadPool.inl',T+'UThreadPool.h',T+'Thread/UThreadPrimary.h',T+'Thread/UThreadSecondary.h',T+'Thread/UThreadBase.h'],[('queues and worker loops',T+'Thread')],['task bodies and futures'])
prop('C29','Pool configuration is validated, dispatch and stealing stay in range',
 'The configuration check, and a pipeline it is given to, accept exactly the configurations whose sizes are consistent; with a valid configuration every task, committed with any index, is dispatched to an existing queue and run, a worker steals only from other existing workers and from as many as configured, and the number of secondary threads follows the requests and never exceeds its maximum, also when several threads ask at once.',
 ['configurations','inputs'],'all configuration values and indices within stated ranges',
 'Defaults plus a few settings are tested.',
 [T+'UThreadPoolConfig.h',T+'UThreadPool.cpp',T+'Thread/UThreadPrimary.h'],[('config.check, dispatch, steal target table',T)],['init status, chosen queues'])
prop('C30','Pool queues neither lose, duplicate, invent nor reorder entries',
 'Whatever operations run concurrently on the pool\'s queues, every pushed task is popped or stolen at most once, none is lost, tasks pushed by one producer to one end are taken in the order that queue promises, and a try-operation fails only if the queue was empty or contended; the waiting pop wakes up when an entry arrives.',
 ['schedules','histories'],'operation sequences of owner and thieves, batch sizes, schedules',
 'Concurrent histories cannot be sampled into coverage.',
 [T+'Queue/UAtomicQueue.h',T+'Queue/UWorkStealingQueue.h',T+'Queue/UAtomicRingBufferQueue.h',T+'Queue/UAtomicPriorityQueue.h',T+'Lock/USpinLock.h'],[('locks and deques',T+'Queue')],['queue API'])
prop('C31','Prioritised tasks leave the pool in priority order',
 'Among long-time tasks waiting in the pool, one with a larger priority value is always taken before one with a smaller value.',
 ['inputs','histories'],'all priority values and push/pop sequences up to a bound',
 'Tests never check the order.',
 [T+'Queue/UAtomicPriorityQueue.h',T+'Task/UTask.h'],[('priority_queue ordering',T+'Queue/UAtomicPriorityQueue.h')],['order of pops'])
prop('C32','Task groups run all their tasks and report completion or timeout',
 'Submitting a task group runs each of its tasks exactly once, returns success only after all of them have finished within the time limit, reports an error when the limit (the smaller of the group\'s and the call\'s) expires first, and calls the group\'s finish callback exactly once with that status.',
 ['schedules','inputs','fault_sequences'],'group sizes, time limits, which task throws, when time expires',
 'Tests submit one group without failures or expiry.',
 [T+'UThreadPool.cpp',T+'Task/UTaskGroup.h'],[('deadline per group',T+'UThreadPool.cpp')],['submit result'])
prop('C33','Status values combine so that the first error wins',
 'Combining statuses with += keeps the first error (code and text) and otherwise reports success with the codes zero, positive and negative classified as documented; copying, assigning and comparing a status preserve code, text and location; a status of code zero carries no text.',
 ['inputs','histories'],'all pairs and short sequences of codes and texts',
 'Tests compare a few instances.',
 ['src/CBasic/CStatus.h','src/CBasic/CStatusInfo.h'],[('operators','src/CBasic/CStatus.h')],['CStatus API'])
prop('C34','The LRU cache keeps the most recently used entries',
 'For every sequence of puts, gets and clears the cache holds exactly the most recently used distinct keys up to its capacity (at least one) with their last values, reports hits and misses accordingly, and never exceeds the capacity.',
 ['histories','inputs'],'all operation sequences up to a bound, keys and values symbolic, capacities',
 'No test covers eviction order.',
 ['src/UtilsCtrl/Lru/ULru.h'],[('list plus map','src/UtilsCtrl/Lru/ULru.h')],['ULru API'])
prop('C35','Small containers behave as their plain counterparts',
 'For every sequence of operations the small vector agrees with a plain vector (contents, size, iteration order, growth beyond its inline capacity, copies and moves), and the unique array keeps each element once, in insertion order.',
 ['histories','inputs'],'all operation sequences up to a bound with symbolic values and indices',
 'Not tested beyond implicit use.',
 ['src/UtilsCtrl/Container/USmallVector.h','src/UtilsCtrl/Container/USerialUniqueArray.h'],[('array with counter','src/UtilsCtrl/Container')],['container API'])
prop('C36','Distance calculators check their inputs and compute the defined distance',
 'For every pair of vectors within the supported sizes the calculators read only inside the given vectors, reject null, empty or mismatched inputs when checking is requested, and otherwise return the Euclidean or cosine distance their definition prescribes; normalisation of a non-zero vector leaves it a unit vector or reports an error.',
 ['inputs'],'dimensions, presence of inputs and small component values',
 'Tests use one vector.',
 ['src/UtilsCtrl/Distance/UDistance.inl','src/UtilsCtrl/Distance/Common/UEuclideanDistance.h','src/UtilsCtrl/Distance/Common/UCosineDistance.h','src/UtilsCtrl/Distance/UDistanceCalculator.h'],[('check and calculate','src/UtilsCtrl/Distance')],['calculate/normalize'])
prop('C37','A saved pipeline loads back as the same pipeline',
 'Saving a pipeline and loading the file into a fresh pipeline restores every element with its name, loop count, level, timeout, visibility, binding, dependencies, nesting, aspects and element parameters, every parameter, event, daemon and stage under its key with its type and settings (not their run-time contents, nor the engine type), and the thread-pool configuration, and leaves out elements that were created but never registered; a file that cannot be opened, read or written, is cut short or names unregistered types is reported as an error, as is saving a pipeline that holds adapters or is initialised.',
 ['programs','inputs'],'graphs, attribute values and managers\' contents within bounds',
 'One fixed pipeline in the tutorial.',
 [G+'GraphPipeline/_GStroage/GStorage.cpp',G+'GraphPipeline/_GStroage/GStorageDefine.h','src/UtilsCtrl/Reflection/UReflectionType.h','src/UtilsCtrl/Reflection/UReflectionSession.h'],[('field reflection serialiser','src/UtilsCtrl/Reflection'),('rebuild on load',G+'GraphPipeline/_GStroage/GStorage.cpp')],['loaded pipeline'])
prop('C38','Performance analysis leaves the pipeline as it found it',
 'perf() runs the pipeline exactly once like process() would, returns its status, and afterwards, whether it succeeded or failed, the pipeline holds the same elements with the same aspects and behaves in later runs as if perf() had not been called; perf() on an initialised pipeline is refused.',
 ['programs','fault_sequences'],'graphs, failing elements, pre-existing aspects',
 'Tutorial only, on success.',
 [G+'GraphPipeline/_GPerf/GPerf.cpp',G+'GraphPipeline/_GPerf/GPerfAspect.h'],[('injected aspects and recovery',G+'GraphPipeline/_GPerf/GPerf.cpp')],['aspect hooks after perf'])
prop('C39','Dependencies are recorded consistently or not at all',
 'Registering an element with its dependencies either records every dependency in both directions exactly once or reports an error and records nothing: null and foreign-group dependencies are refused at once, unregistered ones and those of another pipeline at the latest by init, a dependency on itself has no effect, duplicate dependencies count once, and the element is never half registered.',
 ['programs','histories'],'sequences of registrations and depend calls over elements in and outside groups, with invalid members',
 'Tests pass valid sets.',
 [E+'GElement.cpp',E+'GElementRepository.cpp',G+'GraphPipeline/GPipeline.inl',G+'GraphPipeline/GPipeline.cpp'],[('addDependGElements checks',E+'GElement.cpp')],['CStatus of register, later run order'])
prop('C40','The ANN node dispatches each request to its own function',
 'A domain ANN node calls exactly the function selected by its prepare hook, then refresh, returns their status, reports an error for a selection outside the defined range and calls nothing then, and an unimplemented function reports an error.',
 ['inputs','fault_sequences'],'all selector values and hook statuses',
 'No test runs the domain node.',
 ['src/DomainCtrl/Ann/DAnnNode.cpp','src/DomainCtrl/Ann/DAnnNode.h'],[('function table','src/DomainCtrl/Ann/DAnnNode.cpp')],['hooks called'])
prop('C41','Pipeline functions driven asynchronously behave like the direct calls',
 'A pipeline run or processed through its asynchronous calls performs exactly one run per call with the same effects as the synchronous call, and the returned future becomes ready with that call\'s status only after the run has finished; calls in the wrong phase yield an error status through the future, or are refused by the call itself, and never hang.',
 ['schedules','fault_sequences'],'statuses of elements, launch policies, schedules',
 'One tutorial call.',
 [G+'GraphPipeline/GPipeline.cpp'],[('std::async launch',G+'GraphPipeline/GPipeline.cpp')],['future value'])
prop('C42','Element parameters stay with their element',
 'A parameter passed to an element, aspect, daemon or event is a private copy taken when it was added: the receiver sees exactly the values given then, later changes to the original are not seen, lookups with a wrong type or key yield nothing, and each key holds one object.',
 ['histories','inputs'],'sequences of adds, changes and lookups over elements and keys with symbolic values',
 'Tests add one parameter.',
 [E+'GElement.inl',G+'GraphParam/GPassedParam.h',G+'GraphAspect/GAspectObject.inl'],[('clone on add',E+'GElement.inl')],['getEParam/getAParam'])
prop('C43','Spin lock, semaphore and lock free queue do what they promise',
 'The spin lock admits one holder at a time and its tryLock takes exactly a free lock; a semaphore lets exactly as many waiters pass as it was signalled, whatever the order of waits and signals; the lock free ring buffer hands the entries of its single producer to its single consumer once each and in order.',
 ['schedules'],'all interleavings of two threads, repeated use',
 'Nothing in the test suite uses them.',
 [T+'Lock/USpinLock.h',T+'Semaphore/USemaphore.h',T+'Queue/ULockFreeRingBufferQueue.h'],[('atomic flag, counter with condition variable, head and tail indices',T)],['lock/unlock, signal/wait, push/tryPop'])
prop('C44','The dump draws exactly the registered pipeline',
 'dump() writes a well formed graph in which every registered element appears once under its name (or its session when it has none) with its loop count where it runs more than once, every dependency as one edge between the two, and the elements of a group inside that group\'s cluster, in whatever phase the pipeline is, and the structure does not depend on whether perf() added times to it; dumping changes nothing.',
 ['programs','inputs'],'graphs, names, loops, groups and phases',
 'Nothing reads the output of dump().',
 [G+'GraphPipeline/GPipeline.cpp',G+'GraphPipeline/_GPerf/GPerf.cpp',E+'GElement.cpp',E+'GGroup/GGroup.cpp',E+'GElementManager.cpp'],[('dump of elements, groups and edges',E)],['text written to the stream'])
prop('C45','What a pipeline holds is released exactly once',
 'Elements, groups, parameters, element and aspect parameters, aspects, daemons, events, stages and messages handed to or created by a pipeline are released exactly once: when they are replaced or removed, or with the pipeline, in whatever phase it is, after failures and exceptions included; requests that are refused leave nothing behind.',
 ['histories','fault_sequences'],'what is added, groups, phases, failures, refused requests, histories of topics',
 'Tests do not count objects.',
 [G+'GraphPipeline/GPipelineFactory.cpp',E+'GElementRepository.cpp',E+'GElement.cpp',G+'GraphParam/GParamManager.cpp',G+'GraphMessage/GMessageManager.h',G+'GraphPipeline/GPipeline.inl'],[('destructors and clear of the managers',G)],['number of live objects and allocations'])
prop('C46','Pipelines can share a thread pool',
 'Pipelines that are given one shared thread pool behave exactly as with pools of their own, also when they run at the same time as each other and as other tasks of the pool, each returning its own status; they neither start nor stop the pool, which stays usable when they are destroyed; a pipeline whose shared pool is not initialised is refused by init and runs nothing; the pool can be chosen and taken back only before init; a pipeline with a shared pool is not made serial.',
 ['schedules','histories'],'two pipelines with failing elements, foreign tasks, histories of requests',
 'One tutorial.',
 [G+'GraphPipeline/_GSchedule/GSchedule.cpp',G+'GraphPipeline/GPipeline.cpp'],[('makeType, init and destroy of the schedule',G+'GraphPipeline/_GSchedule/GSchedule.cpp')],['element runs, statuses, pool state'])
prop('C47','Parameter locks exclude, and who asked for which parameter is known',
 'Code that holds the lock of a parameter (write or read block, lock, tryLock, also nested) runs by itself: no change made under it is lost, a refused tryLock has no effect, and the lock is free when all have left it. Elements and events may ask for parameters at the same time: each gets the parameter of that key if there is one, a parameter created with a trace lists everybody who asked for it once, in the order of their first request and under their name, and an element or event lists the keys it asked for, also when it was triggered several times at once or a parameter it asked for has been removed.',
 ['schedules','histories'],'ways to lock, elements and events at the same time, histories of create, get, remove and clean',
 'Tests lock one way and never ask who used what.',
 [G+'GraphParam/GParam.h',G+'GraphParam/GParam.cpp',G+'GraphParam/GParamManagerWrapper.h'],[('getGParam, getConcernedGParamKeys',G+'GraphParam/GParamManagerWrapper.h'),('addBacktrace',G+'GraphParam/GParam.cpp')],['parameter values, back traces, concerned keys'])
prop('C48','Timers, singletons, random data, counters and helpers do what they say',
 'A timer that is started runs its task once per interval, never early, one at a time; the interval its modify hook returns holds for the next tick only; a start while it is on changes nothing; when stop (or its destructor) returns, which does not wait for the interval, nothing of it runs or will run until it is started again. All threads that get a singleton receive one and the same finished object, made once (lazily or eagerly), initialised once when asked for, released once. Random data has exactly the dimensions asked for whatever was in the container, every value lies in its range, a fixed seed gives the same values again, and a session is groups of six digits and its key. A time counter reports the time since its start or last reset; sum, product and maximum helpers return exactly that.',
 ['schedules','histories','inputs'],'sequences of start, stop and waiting, threads at first use, dimensions and ranges, values',
 'Used only inside of other tests, with one timing.',
 ['src/UtilsCtrl/Timer/UTimer.h','src/UtilsCtrl/Timer/UTimeCounter.h','src/UtilsCtrl/Singleton/USingleton.h','src/UtilsCtrl/Random/URandom.h','src/UtilsCtrl/UtilsFunction.h'],[('start and stop','src/UtilsCtrl/Timer/UTimer.h'),('get and create','src/UtilsCtrl/Singleton/USingleton.h'),('generate','src/UtilsCtrl/Random/URandom.h')],['ticks and their times, pointers, values'])
prop('C49','Elements are prepared and checked once, and know their thread and their timeouts',
 'After each init, an element\'s prepare hook runs exactly once before its first body (again in the next run only if it failed); a failing preparation is the error of the run and the body does not start. Its result hook runs after all its repetitions, and its error keeps the successors from running and fails the run. Asked from its body, an element gets the index of the thread it is on: -1 on the thread that started the run, the worker\'s index on a primary worker, -2 on a secondary one. It is told that it has timed out exactly when it, or a group it is in at any depth, has; and what has not started in a group when that group times out (and is not an error) does not start.',
 ['schedules','histories','inputs','faults'],'graphs, groups, bindings, hook results, timeouts, schedules',
 'Hardly used in the tests.',
 ['src/GraphCtrl/GraphElement/GElement.cpp','src/UtilsCtrl/ThreadPool/UThreadPool.cpp'],[('fatProcessor, getThreadIndex, isTimeout','src/GraphCtrl/GraphElement/GElement.cpp'),('getThreadIndex','src/UtilsCtrl/ThreadPool/UThreadPool.cpp')],['hook calls, status, indices'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
