import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=None
    P.append(d)

p('C01','Bounded buffer: FIFO, exactly once, within capacity, no lost wake-up',
 'A bounded buffer shared by any number of producer and consumer threads hands out every accepted item exactly once and in the order of acceptance, and never holds more items than its capacity. A non-blocking or timed call that reports failure has had no effect, may only fail while the buffer really was full (put) or empty (get), and a timed call gives up only when its timeout has elapsed. A blocked producer or consumer is always released once space or an item is available, whichever call (blocking, timed, non-blocking, copying or moving) made it available.',
 ['schedules','histories','configurations'],'All interleavings of any mix of the put and get flavours by any number of threads, for every capacity, including timeouts firing at any point.',
 'The unit tests push and pull with a few free-running threads and only count items; ordering across producers, wake-ups of the rarely used flavours, and a timeout racing with an arrival depend on the schedule, which the tests do not control.',
 ['include/common/GBoundedBufferT.hpp'],[('mutex plus two condition variables with predicates over the container size','GBoundedBufferT::push_*/pop_*/try_*'),('capacity test','GBoundedBufferT::is_not_full / is_not_empty')],
 [('container','the queue of accepted items','GBoundedBufferT::m_container')],['returns of the public put/get calls'])

p('C02','Thread pool: each task exactly once, result delivered, wait and teardown drain',
 'Every task submitted to a thread pool is executed exactly once and its future delivers exactly the value returned or the exception thrown by that task, also when the task returns nothing. wait() returns only after all tasks submitted before it have finished, never more tasks run at once than the configured number of threads, and wait(), a change of the number of threads and destruction all terminate, losing no task accepted before.',
 ['schedules','histories','configurations'],'All interleavings of submissions, waits, pool resizes and destruction from any number of threads, with tasks that succeed or throw.',
 'The only test runs a fixed number of equal tasks; the races between lazy start, resize, wait and destruction and the failing-task paths are never scheduled deliberately.',
 ['include/common/GThreadPool.hpp','src/common/GThreadPool.cpp','src/common/GThreadGroup.cpp','include/common/GThreadGroup.hpp'],
 [('promise per task set inside the posted function object','GThreadPool::async_schedule'),('count of unfinished tasks guarded by a mutex with a condition variable','GThreadPool task counter, wait()'),('drain, join and recreate on resize','GThreadPool::setNThreads')])

p('C03','Barrier: nobody passes before all arrived, everybody passes, reusable',
 'A barrier for n threads lets no thread leave round k before all n threads have entered round k, and lets all of them leave once the n-th has entered. This holds for every round when the barrier is reused immediately.',
 ['schedules','configurations'],'All interleavings of n threads for every n over any number of rounds.',
 'No test exercises the barrier with an assertion; whether a thread can overtake depends on the schedule.',
 ['include/common/GBarrier.hpp','src/common/GBarrier.cpp'],[('generation counter and arrival count under a mutex','GBarrier::wait')])

p('C04','Best-N store keeps exactly the N best distinct items ever offered',
 'A size-limited priority store contains, after any sequence of additions, exactly the best N of all distinct items offered since it was last emptied (N being the configured limit, 0 meaning unlimited), ordered from best to worst for the chosen direction, with no item listed twice. Adding worse items never displaces better ones, and stored copies are independent of the objects offered when cloning was requested.',
 ['histories','inputs','configurations'],'All sequences of single and batch additions, limit changes and clears, for maximisation and minimisation, with ties and repeated items.',
 'Tests add a handful of items in one order; duplicate, tie, batch and resize combinations are not explored.',
 ['include/common/GFixedSizePriorityQueueT.hpp','include/geneva/GParameterSetFixedSizePriorityQueue.hpp','src/geneva/GParameterSetFixedSizePriorityQueue.cpp'],
 [('admission test, sort, duplicate removal, truncation','GFixedSizePriorityQueueT::add')])

p('H01','Random factory: no package shared, every package fresh, starvation-free',
 'Random numbers obtained concurrently through the shared factory are never delivered to two consumers and never delivered twice, however packages are returned and recycled. Every request is eventually answered as long as the factory has not been shut down, and seeds handed out to different requesters by one factory are distinct until the seed space is exhausted, for any number of producer threads including changes at run time. The factory always runs, and reports, as many producer threads as were last requested.',
 ['schedules','histories','configurations'],'All interleavings of consumers taking, partly using and returning packages, of producers filling, and of producer-count changes and shutdown.',
 'Statistical tests look at single-threaded streams; sharing of a recycled package between two consumers needs a particular interleaving and would not be visible statistically.',
 ['include/hap/GRandomFactory.hpp','src/hap/GRandomFactory.cpp','include/hap/GRandomT.hpp','include/hap/GRandomBase.hpp'],
 [('two bounded buffers for fresh and recycled packages','GRandomFactory::getNewRandomContainer / returnUsedPackage / producer'),('refresh of used positions only','random_container::refresh')])

p('W01','Work item status: set by processing only, errors never look like results',
 'A work item that reports itself as processed has had its processing function run to normal completion on its present content since it was last marked as due; an exception in it, an error in pre- or post-processing, or an error flagged by the user leaves the item in the corresponding error state and its results cannot be read as if they were valid. Items not due for processing are never run, and every status query agrees with one single current status after any sequence of operations, including copying and (de)serialisation.',
 ['histories','inputs','fault_sequences'],'All sequences of marking, processing with any outcome of pre-processing, processing and post-processing, error flagging, resetting, loading and transporting.',
 'Tests process items that succeed; mixed sequences of failures, retries and re-marking are not enumerated.',
 ['include/courtier/GProcessingContainerT.hpp','include/courtier/GCourtierEnums.hpp'],
 [('status state machine with exception capture','GProcessingContainerT::process')])

p('B01','Broker: every item to exactly one worker, every result to its own submitter',
 'Each work item a submitter puts into its port is handed to at most one consumer at a time and, if a live consumer keeps taking items, eventually to one; each result returned is delivered exactly once and only to the port the item came from, in the order of arrival there. Port identifiers and item identifiers are unique, and results for a port that has gone away are discarded without affecting any other port.',
 ['schedules','histories','configurations'],'All interleavings of any number of submitters enrolling, submitting, collecting and leaving, and of consumers taking and returning items, with bounded or unbounded port buffers.',
 'Existing tests use one submitter at a time with free-running threads; cross-delivery and loss need several ports appearing and disappearing during traffic.',
 ['include/courtier/GBrokerT.hpp','include/courtier/GBufferPortT.hpp'],
 [('port map keyed by unique id','GBrokerT::m_RawBuffers/m_ProcessedBuffers'),('round-robin over live ports','GBrokerT::get'),('orphan removal on use count','GBrokerT::put/get')])

p('B02','Broker: fair over ports, timeouts without effect, consistent enrolment',
 'While several submitters have work waiting, items are taken from their ports in turn, so that no submitter with waiting work is bypassed indefinitely. A timed put or get that fails leaves all ports as they were, enrolment never makes two consumers or ports share an identity, and a submitter that disappears does not stop the remaining ones from being served.',
 ['schedules','histories'],'All sequences and interleavings of enrolments, departures, timed and untimed requests by any number of submitters and consumers.',
 'Fairness and behaviour at departure depend on the sequence of get calls relative to enrolments, which the tests neither control nor observe.',
 ['include/courtier/GBrokerT.hpp','include/courtier/GBufferPortT.hpp'],
 [('rotation of the get position','GBrokerT::getNextRawBufferPort'),('purging of orphaned ports','GBrokerT')])

p('X01','Executors: full, truthful and position-preserving processing of a batch',
 'When an executor reports a batch as complete, every item that was due has been processed exactly once and stands at its original position with its own result, and items that were not due are untouched. Items whose processing failed are reported as failed, never as processed, and an item never disappears or is duplicated; the serial, multi-threaded and broker-based executors agree on this for the same batch.',
 ['inputs','schedules','fault_sequences','configurations'],'All batches of due, not-due and failing items, over every executor and any processing order of the workers.',
 'Tests run homogeneous batches that all succeed and check sums; failing and mixed batches under adverse schedules are not covered.',
 ['include/courtier/GExecutorT.hpp'],[('position and status stamping','GBaseExecutorT::workOn'),('collection of results','GMTExecutorT / GBrokerExecutorT::waitForReturn')])

p('X02','Broker executor: late, missing and resubmitted items are accounted for',
 'With time-outs, partial returns or lost items, a broker-based executor still returns: an item is reported as processed only if its own result came back, a missing item is reported as still due and the batch as incomplete, and a result that arrives in a later call is handed over as an old item of its own iteration and never takes the place of a current one. Resubmission happens at most the configured number of times, with a configured minimum partial return the executor goes on as soon as that share of the items submitted has returned and not before unless its time-out expires, and without both it waits for every item.',
 ['schedules','fault_sequences','configurations'],'All arrival orders, losses and delays of results across successive calls, for every setting of wait factor, resubmissions and minimum partial return.',
 'The tests never lose or delay an item, so the late, incomplete and resubmission paths are not run at all.',
 ['include/courtier/GExecutorT.hpp'],[('submission/iteration counter and position stamps','GBrokerExecutorT::addWorkItemAtCorrectPosition'),('time-out from average return time','GBrokerExecutorT::waitForReturn / waitForTimeOut')])

p('S01','In-process consumers: serve all items, survive failing ones, shut down cleanly',
 'The serial and multi-threaded consumers take every item waiting in the broker, process it exactly once and return it to its submitter, also when the processing of some items fails or when submitters leave while their items are being worked on. On shutdown all worker threads end in finite time and no item that was already taken is left unreturned to a live submitter.',
 ['schedules','fault_sequences','configurations'],'All interleavings of workers, submitters and shutdown, with any pattern of failing items.',
 'The tests run healthy items to completion; failure, departure and shutdown races end the process or hang only under particular schedules.',
 ['include/courtier/GWorkerT.hpp','include/courtier/GStdThreadConsumerT.hpp','include/courtier/GSerialConsumerT.hpp','include/courtier/GBaseConsumerT.hpp'],
 [('worker loop with stop flag','GWorkerT::run'),('shutdown joins','GStdThreadConsumerT::shutdown_')])

p('N01','Networked processing: each session follows the request/compute/result protocol',
 'A server of the Asio or websocket consumer hands an item to a client only in answer to a request or to a result, hands each item to one client only, and forwards a result to the submitter of its item exactly once, carrying the outcome of the client\'s own processing; without an item it answers "no data". Results that come twice or whose submitter has left, unknown or malformed messages, and clients that disconnect at any point neither stop the server nor affect items of other clients; a client that ends costs at most the item handed to it. The clients of the library keep requesting, processing and returning items until their limit is reached or the server ends; an item whose processing fails is returned as failed.',
 ['histories','fault_sequences','configurations'],'All session histories of any number of clients, in every serialisation mode, with disconnects, malformed messages, failing items and departures at any point.',
 'No stable test opens a network connection; protocol histories with faults are not exercised at all.',
 ['include/courtier/GAsioConsumerT.hpp','include/courtier/GWebsocketConsumerT.hpp','include/courtier/GBaseClientT.hpp','include/courtier/GCommandContainerT.hpp'],
 [('session command dispatch','GAsioConsumerSessionT::process_request / GWebsocketConsumerSessionT'),('client loop','GAsioConsumerClientT::run_ / GWebsocketClientT'),('command container serialisation','GCommandContainerT')])

p('O01','Optimisation loop: halts exactly when a criterion is met, counts faithfully',
 'An optimisation run ends after the first iteration in which a configured halting criterion holds, and never otherwise: a pending signal or the touch-file always count; the maximum iteration, maximum time, stall limit (more stalls than allowed), quality threshold (raw best fitness of this run) and user criterion count once the minimum iteration has been exceeded and the minimum time has passed. Criteria switched off have no influence; a maximum iteration not above the minimum is refused. Iterations are numbered consecutively from the given offset, the stall count is the number of successive iterations without strict improvement of the best known solution of the run, and monitors see initialisation once, each due iteration once and in order, and the end once.',
 ['histories','configurations','inputs'],'All sequences of best qualities, all combinations of halting settings, offsets, report intervals and of maximisation or minimisation.',
 'Tests run whole optimisations for a fixed number of iterations; combinations of criteria and improvement sequences are not enumerated.',
 ['src/geneva/G_OptimizationAlgorithm_Base.cpp','include/geneva/G_OptimizationAlgorithm_Base.hpp'],
 [('halt criteria','G_OptimizationAlgorithm_Base::halt'),('main loop','G_OptimizationAlgorithm_Base::optimize_'),('stall counter','updateStallCounter')])

p('O02','Best solution found is never lost and never worse than any evaluated one',
 'At every point of a run the best-known fitness reported by any algorithm is the best among all individuals it has evaluated and accepted for selection so far and never deteriorates; the final result returned for the run carries that fitness together with the parameter values that produced it. The list of best individuals is sorted, free of duplicates and within its configured length, for maximisation as for minimisation; in pareto modes with several criteria it is the present front instead.',
 ['histories','inputs','configurations'],'All sequences of evaluation results in all algorithms, for both optimisation directions, with constraint violations and ties.',
 'Tests check at most that fitness improves on one benchmark function with one seed.',
 ['src/geneva/G_OptimizationAlgorithm_Base.cpp','src/geneva/GParameterSetFixedSizePriorityQueue.cpp'],
 [('iteration best and global best queues','updateGlobalBestsPQ_/updateIterationBestsPQ_'),('best known primary fitness','updateStallCounter / markBestFitness')])

p('E01','Evolutionary algorithm: parents chosen as the sorting mode prescribes',
 'After each iteration of the evolutionary algorithm the parents are exactly the individuals which the selected sorting mode prescribes among the evaluated parents and children of that iteration: the best of both for plus selection, the best children only for comma selection after the first iteration, and the old best parent replaced only by a better child in the retaining mode. Population size, number of parents and the first-iteration rule are as configured (including growth up to the maximum), each child descends from a parent, and with plus and retaining selection the best parent never gets worse.',
 ['inputs','histories','configurations'],'All fitness assignments, population shapes, sorting and recombination modes, growth settings, late or missing children and both optimisation directions.',
 'Tests run the algorithm without checking which individuals were selected; the case analysis over modes and edge sizes is not enumerated.',
 ['src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp','src/geneva/G_OptimizationAlgorithm_ParChild.cpp'],
 [('sort and replace','sortMuPlusNuMode/sortMuCommaNuMode/sortMunu1pretainMode'),('late children and refill','fixAfterJobSubmission'),('size control','adjustPopulation_/populationGrowth')])

p('E02','Pareto selection: the parents are drawn from the true non-dominated front',
 'In the multi-criterion sorting modes an individual is treated as dominated exactly if some other candidate is at least as good in every criterion and strictly better in one. If the non-dominated front is at least as large as the number of parents all parents are taken from it; otherwise the whole front is kept and only the remaining places are filled by the best remaining candidates of the primary criterion; in the comma variant, after the first iteration, domination is judged among the children only and old parents merely compete for remaining places. A population too small for this is refused.',
 ['inputs','configurations'],'All matrices of criteria values, population shapes and both optimisation directions.',
 'No test inspects the selected front.',
 ['src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp'],[('domination test','aDominatesB'),('front extraction','sortMuPlusNuParetoMode/sortMuCommaNuParetoMode')])

p('A01','Simulated annealing: acceptance rule and cooling schedule are respected',
 'In simulated annealing a child at least as good as its parent always replaces it and a worse child replaces it only with the probability prescribed by the current temperature; the temperature starts at the configured value and is multiplied by the configured factor once per iteration, also across checkpoints. The number of parents and children stays as configured and no parent is replaced by anything but one of the best children of that iteration.',
 ['inputs','histories','configurations'],'All fitness assignments, population shapes, temperatures, random draws and both optimisation directions.',
 'Tests only run the algorithm to completion.',
 ['src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp'],[('acceptance','sortSAMode/saProb'),('cooling','updateTemperature')])

p('Q01','Swarm: personal, neighbourhood and global bests are the best positions seen',
 'In the swarm algorithm the best position remembered for an individual, for a neighbourhood and for the whole swarm is in each iteration the best position evaluated so far by that individual, by members of that neighbourhood, and by any individual, and these never deteriorate unless the swarm is restarted by the user. Neighbourhood membership and sizes stay as configured, whichever individuals get lost or return late: gaps are filled with individuals of the same neighbourhood from the last iteration (random ones in the first iteration, which have no history), surplus is cut off from the bad end. An update moves an individual using exactly its own, its neighbourhood\'s and (with several neighbourhoods) the swarm\'s best, within the velocity limit, away from them in repulsive mode; positions supplied by the user are among the starting points. Only the loss of everybody in the first iteration ends the run.',
 ['inputs','histories','configurations'],'All fitness assignments, swarm shapes, update rules, missing or late individuals and both optimisation directions.',
 'Tests only run the algorithm to completion; remembered bests are not observed.',
 ['src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp','src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp'],
 [('personal best','updatePersonalBestIfBetter'),('neighbourhood and global best','findBests / updateIndividualPositions')])

p('D01','Gradient descent: descends along finite differences, one probe per parameter',
 'In each iteration of gradient descent every starting point is evaluated together with exactly one probe per active floating-point parameter, each differing from its starting point in that parameter only and by the configured relative step (taken inwards where it would cross a boundary); out-of-range step sizes are refused; the starting point then moves by the configured step size against (minimisation) or along (maximisation) the resulting difference quotients, staying within parameter boundaries. Starting points do not influence one another and the number of individuals stays (starting points) x (parameters + 1).',
 ['inputs','histories','configurations'],'All quality functions, numbers of starting points and parameters, step sizes and both optimisation directions.',
 'Tests only run the algorithm to completion.',
 ['src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp'],[('probe construction','updateChildParameters'),('step','updateParentIndividuals')])

p('P01','Parameter scan: every grid point exactly once, then stop',
 'A parameter scan evaluates every combination of the configured grid values of the scanned parameters exactly once, within the boundaries given and including both end points, leaves all other parameters at their start values, and then stops by itself with no further evaluations. In the random-number mode the number of evaluated points is exactly the number requested, independent of the population size.',
 ['configurations','inputs'],'All numbers and types of scanned parameters, grid sizes and population sizes, including ones that do not divide the number of points.',
 'Tests do not check which points were evaluated; batch-boundary cases depend on the relation of population size to grid size.',
 ['src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp','include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp'],
 [('mixed-radix counting','updateSelectedParameters/switchToNextParameterSet'),('termination','cycleLogic_')])

p('K01','Checkpoints: resuming continues the interrupted run',
 'A checkpoint written at any iteration and in any serialisation mode can be loaded and restores the population, best solutions, iteration number and algorithm state (temperature, memory of the swarm, position of a scan, ...) exactly as they were when it was written; a run resumed from it starts from this state with the next iteration number, keeps the best solutions, and does what the object in memory would do if it were continued with the same random numbers (stall counters start anew). A checkpoint of another algorithm is refused without effect. A checkpoint file once written can be loaded until a newer one is complete, also when writing the newer one fails, which is reported; checkpoints are written exactly in each iteration that is a multiple of the configured interval, or exactly on each improvement, or never, as configured, and older files are removed only if this was requested.',
 ['crash_points','histories','configurations'],'All interruption points, checkpoint intervals, removal settings, serialisation modes and algorithms.',
 'Tests serialise single objects and do not resume a run.',
 ['src/geneva/G_OptimizationAlgorithm_Base.cpp','src/geneva/Go2.cpp'],[('save and remove','checkpoint/saveCheckpoint'),('load','loadCheckpoint')])

p('G01','Chained algorithms: iteration count and solutions are handed on unbroken',
 'When several optimisation algorithms are chained, they run in the order given, each one starting with the individuals selected from its predecessor (the best it knows or its whole population, as configured) and numbering its iterations where the predecessor stopped; iteration limits count along the whole chain, while stalls, monitors of a single algorithm and its remembered best individuals concern that algorithm\'s own runs only. If the best individuals are handed on, the end result is the best individual evaluated anywhere in the chain; if whole populations are handed on, it is the best of the last population. The result list is what the last algorithm handed on, sorted by fitness. A chain started from a checkpoint continues with the population and iteration stored in it.',
 ['configurations','histories'],'All sequences of algorithms, iteration limits, start populations and hand-over settings.',
 'Tests run single algorithms.',
 ['src/geneva/Go2.cpp','include/geneva/Go2.hpp'],[('chaining loop','Go2::optimize_'),('hand-over and offset','Go2::optimize_')])

p('V01','Constrained parameters never leave their range; active/inactive is respected',
 'Whatever sequence of assignments, boundary changes, arithmetic, adaptions, random initialisations, copies and loads is applied, the value a constrained parameter shows lies within its current boundaries, an assignment outside them is refused without changing the object, and an assignment inside them is read back unchanged. Values beyond the range are mapped to it by mirroring, which is continuous and leaves values inside alone; arithmetic starts from the values shown. Parameters declared inactive are not changed by adaption, initialisation or assignment of active values, and those blocked from random initialisation are not initialised.',
 ['inputs','histories'],'All value types, boundaries, internal values and operation sequences.',
 'Tests sample some values for fixed boundaries; sequences mixing boundary changes with adaption are not enumerated.',
 ['include/geneva/GConstrainedNumT.hpp','include/geneva/GConstrainedFPT.hpp','include/geneva/GConstrainedIntT.hpp','include/geneva/GConstrainedNumCollectionT.hpp','include/geneva/GParameterT.hpp','src/geneva/GParameterBase.cpp'],
 [('folding transfer function','GConstrainedFPT::transfer / GConstrainedIntT::transfer'),('boundary checks','setValue/setBoundaries')])

p('V02','Adaptors: rates stay in their limits and change only when due',
 'The mutation strength and adaption probability of an adaptor always lie within the limits configured for them. The mutation strength is modified only once per configured number of adaptions or, if that number is zero, with the configured probability, the adaption probability only if a rate of change is configured for it; both go back to their configured values on a stall, which is reported. Settings outside of their limits are refused without any effect. An adaptor set to never adapt changes no value, one set to always adapt changes every value, and the number of adaptions reported equals the number carried out. Copied, reloaded or attached adaptors have the settings of the original.',
 ['histories','inputs','configurations'],'All sequences of adaptions, stalls and reconfigurations of all adaptor types with all random draws.',
 'Tests check single settings statistically; counters and limits over histories are not observed.',
 ['include/geneva/GAdaptorT.hpp','include/geneva/GNumGaussAdaptorT.hpp','include/geneva/GNumBiGaussAdaptorT.hpp','include/geneva/GIntFlipAdaptorT.hpp','src/geneva/GBooleanAdaptor.cpp'],
 [('adaption counter and threshold','GAdaptorT::adaptAdaption'),('range enforcement','customAdaptAdaption')])

p('V03','Reported fitness always belongs to the current parameters and constraints',
 'The fitness an individual reports after evaluation is the value its evaluation function gave for exactly its current parameter values; any change of parameters by the library makes it due for evaluation again, and evaluation happens exactly once per such change. Under the worst-case policy an individual violating its constraints is not evaluated and rates worst, under the sigmoid policy it rates no better than any valid one and worse for larger violations, and it never precedes a valid one in a comparison.',
 ['histories','inputs','configurations'],'All sequences of changes, evaluations, copies and recombinations, all constraint combinations and evaluation policies, both optimisation directions.',
 'Tests evaluate valid individuals; the combinations of policies, constraints and failures are not enumerated.',
 ['src/geneva/GParameterSet.cpp','include/geneva/GParameterSet.hpp','include/geneva/GMultiConstraintT.hpp'],
 [('dirty marking','adapt/randomInit/crossOverWith/assignValueVector'),('policy dispatch','GParameterSet::process_'),('validity level','GMultiConstraintT')])
p('F01','Configuration files and the command line mean what was registered',
 'Parsing a configuration file gives every registered option (single value, pair, fixed-size array or list, delivered by call-back or into a variable) exactly once the value the file holds for it, or its current default where the file has no (readable) entry for it; entries for unknown options and the order of the entries do not matter. If the file does not exist and its directory does (a bare file name means the current directory, an environment variable may name a base directory), it is first created, with every option, its comments, its default and its value, and parsing succeeds; this also holds when several builders parse the same missing file at once. A parse that fails (no regular file, wrong extension, malformed file, list element of the wrong type, file cannot be created) reports so, and an option has then received either its new value or nothing. Writing a configuration file writes all options, or the essential ones only, with stored values, defaults, comments and header such that whoever parses the file gets exactly the values of the writer (all doubles, strings and lists of any length included); an existing file is never overwritten, and a write that is refused leaves no file behind. Resetting a default affects exactly that option. On the command line an option that is given has its value, one given without value its implicit value, an absent one its default; a request for help is reported; an unknown, repeated or malformed option ends the program.',
 ['inputs','histories','configurations','schedules'],'All sets of options of all kinds and types, all contents of the files, all histories of placing, parsing, writing files and resetting defaults by several builders, also in parallel; all command lines.',
 'No unit test covers list options, several builders or incomplete and malformed files; the example programs always find a complete file written by the library.',
 ['include/common/GParserBuilder.hpp','src/common/GParserBuilder.cpp'],
 [('load and write through property trees','load_from / save_to of the option classes'),('creation of missing files under a process-wide mutex','GParserBuilder::parseConfigFile'),('checks before writing','GParserBuilder::writeConfigFile'),('command line','GParserBuilder::parseCommandLine, GCLReferenceParsableParameterT::save_to')])

p('L01','Logging: each message whole, once per target, in one order; single singletons',
 'A message logged through the global logger reaches every registered log target exactly once per registration (the default target only if none is registered), whole and unmixed with messages of other threads; all targets receive the messages in the same order, in which the messages of one thread keep their order, and the logging call returns only after delivery. Warnings are delivered like plain messages, in a frame that contains the text; messages with a source carry it (a file target keeps one file per source); messages for standard output, standard error, a file of their own or an exception go there and nowhere else, and the exception carries the text. Registering no target object is refused. A process-wide singleton is created once, however many threads ask first, and all of them get the same object.',
 ['schedules','histories','configurations'],'All interleavings of any number of threads logging messages of all kinds, for all sequences of registrations of targets between them.',
 'The logger is only exercised by tests as a side effect, from one thread, and nothing looks at the output.',
 ['include/common/GLogger.hpp','src/common/GLogger.cpp','include/common/GSingletonT.hpp'],
 [('one mutex around the delivery to all targets','GLogger::log / logWithSource'),('dispatch by manipulator','GLogStreamer::operator<<(GManipulator const&)'),('double-checked creation','GSingletonT::Instance')])
p('M01','Monitors: the files written tell the history of the run, all of it, and no other',
 'For every run of an optimization algorithm with file-writing monitors registered (directly, as copies, or inside a collective monitor), each monitor has, after each report, added exactly its share to its file. The solution logger: one line per individual of the reported population, in order, which holds all parameter values (grouped by type, then ordered by name, then index), all fitness values (raw or transformed as configured; marked as dirty where there is none) and the validity if wanted; with boundaries set, exactly the individuals whose raw fitness is good enough in every criterion (in the direction of optimization); names and types, if wanted, once per run before the first solution; the initial population only if wanted; comments at iteration boundaries only if wanted; separators as configured. The iteration results logger: one line per report with the raw or transformed fitness, as configured, of all individuals. The logger of processing times: one line per individual and report. The logger of adaptions: at the end of the run a plot of the number of adaptions of all individuals or of the best individual, and one of the best fitness, at all reported iterations of this run. The progress plotter (one or two variables): at the end, the points of all individuals (or the best), filtered by validity and variable range where this is configured. A file of an earlier run is put aside, not overwritten (progress plots excepted), and a run without reports ends without harm.',
 ['histories','configurations','inputs'],'All settings of the monitors, all populations (valid and invalid individuals, several criteria, parameters of all types and collections of them), all numbers of runs, iterations and report intervals.',
 'The tests only compare, copy and serialise monitors; none looks into what they write.',
 ['src/geneva/GPluggableOptimizationMonitors.cpp','include/geneva/GPluggableOptimizationMonitors.hpp','src/geneva/GParameterSet.cpp','src/common/GPlotDesigner.cpp','include/common/GPlotDesigner.hpp'],
 [('reports to the monitors','G_OptimizationAlgorithm_Base::informationUpdate'),('one line per solution','GAllSolutionFileLogger::printPopulation, GParameterSet::toCSV'),('recording and plotting','GNAdpationsLogger, GProgressPlotterT, GPlotDesigner::plot')])
p('T01','Formulas have the value that the rules of arithmetic give them',
 'A formula is read as numbers, constants (e, pi and those of the user), place holders of variables, signs, sums and products (from left to right, products first), parentheses and functions of one or two arguments, with blanks of no importance. Evaluating it with a set of variables gives the value it has by these rules, in either precision: {{x}} stands for the first value of x, {{x[i]}} for the i-th, counted from zero, and variables that are not used do not matter. A division by zero and arguments outside the domain of acos, asin, log, log10 and sqrt are reported as exactly that error, the one met first; a text that is no formula, a place holder without value and a variable without any value are reported as errors of the formula, nothing is evaluated in part. The formula with its place holders replaced has the same value. The same object can be evaluated any number of times, with other variables, also after an error: earlier evaluations and other parsers have no influence.',
 ['inputs','histories'],'All formulas (nested up to depths that the stack of the process can take), all sets of constants and variables, all histories of evaluations.',
 'There is only a manual test program, which prints the values of a few formulas.',
 ['include/common/GFormulaParserT.hpp','src/common/GFormulaParserT.cpp'],
 [('grammar','GFormulaParserT constructor'),('stack machine','compile, execute'),('place holders','replacePlaceHolders')])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
try:
    import jsonschema
except ImportError:
    jsonschema=None
s=json.load(open('/root/.vp/PROPERTIES.schema.json')) if jsonschema else None
if jsonschema:
    for d in P: jsonschema.validate(d,s)
