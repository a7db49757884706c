#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only because it is easier to edit)."""
import json, os
M='src/core/model/xmmModel.hpp'; S='src/core/model/xmmModelSingleClass.cpp'; SH='src/core/model/xmmModelSingleClass.hpp'
HH='src/models/hmm/xmmHierarchicalHmm.cpp'; HS='src/models/hmm/xmmHmmSingleClass.cpp'
G='src/models/gmm/xmmGmm.cpp'; GS='src/models/gmm/xmmGmmSingleClass.cpp'
J='src/core/common/xmmJson.hpp'; JC='src/core/common/xmmJson.cpp'
P='src/core/trainingset/xmmPhrase.cpp'; T='src/core/trainingset/xmmTrainingSet.cpp'
D='src/core/distributions/xmmGaussianDistribution.cpp'
CB='src/core/common/xmmCircularbuffer.hpp'; EV='src/core/common/xmmEvents.hpp'
A='src/core/common/xmmAttribute.hpp'; SP='src/core/model/xmmModelSharedParameters.cpp'
CF='src/core/model/xmmModelConfiguration.hpp'; KM='src/models/kmeans/xmmKMeans.cpp'
GP='src/models/gmm/xmmGmmParameters.cpp'; HP='src/models/hmm/xmmHmmParameters.cpp'
L=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    L.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

prop('C01','Training outcome is independent of threading mode and schedule',
 'Training a model on a given training set with a given configuration produces bit-identical class parameters and identical recognition behaviour whether its classes are trained sequentially, in parallel or in the background. This holds for every interleaving of the training threads and whatever values the random number source returns. When no class fails or is cancelled, the trained model holds exactly one class per label of the training set.',
 ['schedules','inputs','configurations'],
 'all interleavings of the per-class training threads and the caller, all three threading modes, GMM and hierarchical HMM, all random-number sequences, all finite training sets and class-specific settings',
 'Tests train under whatever schedule the OS happens to give, mostly with one mode, and the multithreading test is excluded from the stable suite because it is racy; they never compare two schedules.',
 [M,S,GS,HS,HH,KM],
 [('one thread per class, joined before the call returns or by a background joiner',M+': train, joinTraining, onTrainingEvent'),('per-class EM loop working only on its own class and its own sub training set',S+': train'),('transition parameters derived from the set of classes after training',HH+': updateTransitionParameters')],
 [('models','map of the class models',M),('shared parameters','dimensions and EM settings, shared by all classes',SP)],
 ['parameters of each class after training','results of filtering after reset'])
prop('C02','Training progress events form a well-ordered, complete, serialised log',
 'For every class being trained, the listeners of a model receive iteration events numbered consecutively from one, followed by exactly one terminal event (done, failed or cancelled) carrying that class\'s label. After the last class has terminated, exactly one event announces that the whole training is finished; it comes last, in all threading modes and also after a cancellation. Events of one model are delivered one at a time and always name that model as their source.',
 ['schedules','histories','configurations'],
 'all interleavings of training threads, all threading modes, cancellations at any point, retraining of single classes while others train',
 'No test checks the sequence of events: that would need every order in which worker threads can finish, including finishing before the next one has even started.',
 [M,S,EV],
 [('events of all classes relayed under one lock',M+': onTrainingEvent'),('count of classes still training decides when the end is announced',M+': onTrainingEvent, joinTraining'),('status of each class carried by its own event',S+': train, emAlgorithmTerminate, cancelTrainingIfRequested')],
 [('models still training','number of classes that have not reported a terminal event',M)],
 ['sequence of events seen by a listener'])
prop('C03','Training operations always finish and leave the model usable',
 'Under every fair schedule, each call that trains, cancels, removes classes, clears or destroys a model returns after a bounded number of steps. After a background training has been started, the model eventually stops being in training and can then be reset, used, saved and trained again. No sequence of such calls deadlocks, loops forever or leaves the model permanently in training.',
 ['schedules','histories','fault_sequences'],
 'all fair interleavings, arbitrarily long stalls of any thread, permitted spurious failures of atomic operations, all call histories of one controlling thread',
 'A hang needs one particular order of a few instructions in two threads (or a spurious failure the test machine never produces); tests only ever see the common order.',
 [M,S,HH],
 [('busy-wait loops on training and joining flags',M+': cancelTraining, joinTraining, checkTraining, removeClass'),('compare-and-swap that elects the joining thread',M+': joinTraining'),('iteration limit of the EM loop',S+': emAlgorithmHasConverged')],
 [('is training / is joining flags','protocol state of the training operation',M)],
 ['return of the calls','training state polled by the caller'])
prop('C04','Cancelling stops the training cleanly and keeps finished classes',
 'When cancelling the training returns, the model is not in training, no training thread of it is running and no further event is delivered. Every class that had not finished has been reported as cancelled and is gone; every class that had finished is kept, with exactly the parameters an undisturbed training gives. A class with much work left when the cancellation is requested is stopped instead of being run to completion.',
 ['schedules','crash_points'],
 'a cancellation issued at every point of a background training, under every interleaving of the canceller with the training threads and the finishing of the operation',
 'Tests cancel at most once at one wall-clock moment; the interesting moments are the handful of instructions around a class finishing and the background join.',
 [M,S],
 [('cancel flag polled between iterations',S+': cancelTrainingIfRequested'),('cancel waits for every class, then joins and drops unfinished classes',M+': cancelTraining, joinTraining')],
 [('cancel flag','request seen by a training class',SH)],
 ['state of the model when the call returns','events delivered afterwards'])
prop('C05','Operations on one class leave every other class untouched',
 'Training, retraining, cancelling or removing a single class, whether the other classes are trained, idle or still training in the background, changes only that class. Every other class keeps or reaches exactly the parameters it would have without the operation, its events are unaffected, and the named class ends as the operation demands (trained on the given data, cancelled, or absent).',
 ['schedules','histories'],
 'all histories of single-class operations on one model, issued before, during and after background training, under all interleavings',
 'Tests never issue a single-class operation while another class is training, and sample one history each when idle.',
 [M,S,HH],
 [('single-class train, cancel and remove',M+': train(label), cancelTraining(label), removeClass'),('multi-class transition parameters updated when the set of classes changes',HH+': updateTransitionParameters, addModelForClass, removeClass')],
 [('models','map of the class models',M),('training threads','thread of each class in training',M)],
 ['parameters and events of the other classes'])
prop('C06','Any moment is safe for destroying, clearing, replacing or retraining a model',
 'A model may be destroyed, cleared, retrained or assigned a new value at any moment of a background training or of its completion, or used again right after it: the operation first ends whatever training is going on or is refused with an error. From then on no thread of the earlier training touches the model or its former memory, and no event of it is delivered. Every thread and every block of memory the model acquired is released once it is gone.',
 ['schedules','crash_points','histories'],
 'all interleavings of destruction, clearing, retraining and assignment with worker threads and background completion, at every step',
 'Use after free by a late background thread needs the destructor to run inside a window of a few instructions; a test that happened to hit it would not notice without a memory oracle.',
 [M,G,HH,S],
 [('destruction cancels and joins',M+': ~Model, cancelTraining'),('background joiner thread',M+': onTrainingEvent, joinTraining')],
 [('training threads','per-class threads and the joiner',M)],
 ['memory accesses of every thread','threads alive and memory held after destruction'])
prop('C07','A model in training refuses to be used and is not disturbed by the attempt',
 'While a model is training, class lookup, resetting, filtering, saving, restoring, copying and assigning it throw an error and change nothing, and the training goes on to the result it would have had anyway. Once the model reports that it is no longer training, all of these work, and what they see is the completely trained model (all classes and multi-class parameters in place, filtering state reset), never a partly finished one.',
 ['schedules','histories'],
 'all calls issued at every point of a background training and right at its end, under all interleavings',
 'The window between the end of the last class and the end of the background join lasts microseconds; tests poll or sleep across it.',
 [M,G,HH,GS,HS],
 [('guard at the entry of public calls',M+': checkTraining'),('class-level guard',SH+': check_training'),('completion order of the background join',M+': joinTraining; '+HH+': joinTraining')],
 [('is training flag','whether the model may be used',M)],
 ['exceptions thrown by the calls','model content after training() turns false'])
prop('C08','A class that fails to train fails alone',
 'When a class cannot be trained, because its data is empty, too short, not finite, or because memory runs out in its training, that class is reported by exactly one failure event and removed, and every other class ends exactly as if the failing class had not been there. A failure to start a training thread never leaves the model in training: the call either still completes the training or throws, and the model stays usable. No such failure terminates the process.',
 ['fault_sequences','schedules','inputs'],
 'all placements of bad data among the classes, of failing allocations in training threads and of failing thread creations, in all threading modes under all interleavings',
 'Tests inject no allocation or thread-creation failure and train on clean data; each failure site times each schedule is out of their reach.',
 [S,M,GS,HS,D],
 [('exceptions of the EM steps turned into a failure status',S+': train'),('failed classes dropped when the training is finalised',M+': joinTraining'),('thread creation per class',M+': train')],
 [('training status','outcome of the training of a class',SH)],
 ['events','set of classes and their parameters afterwards'])
prop('C09','Training and use of models are free of data races',
 'In every execution in which one thread controls each model, no two threads ever access the same memory location at the same time with at least one write, without being ordered by synchronisation. This covers training threads, background completion, progress polling, cancellation, and independent objects used by different threads.',
 ['schedules','histories'],
 'all executions: every pair of accesses unordered by happens-before counts, whether or not the schedule made them collide',
 'A race is a property of the ordering relation and is invisible to assertions; the suite is not run under a race detector and its multithreaded test is excluded because it is racy.',
 [M,S,SH,HH,'dependencies/jsoncpp/src/json_reader.cpp'],
 [('atomic flags and event lock',M),('per-class training mutex and flags',SH)],
 [('training flags and counters','shared between caller, workers and joiner',M)],
 ['every memory access and synchronisation operation of the real code'])
prop('C10','Separate objects are independent, including copies of one another',
 'Models, distributions, configurations, training sets and phrases that are distinct objects, including copies and objects restored from one another\'s saved form, share no observable state: training, reconfiguring, filtering, clearing, saving or destroying one never changes what another contains or does. This holds whatever order these operations come in, and when different objects are used by different threads at the same time each behaves exactly as if it were used alone.',
 ['schedules','histories'],
 'all histories over several objects connected by copying, assignment and save/restore, and all interleavings of threads each owning its own objects',
 'Tests copy objects once and compare them immediately; they neither modify one afterwards nor use two from different threads.',
 [M,G,HH,GS,HS,SP,T,P,A],
 [('copy constructors and assignments',M+', '+GS+', '+HS+', '+T+', '+P),('listeners are not copied with an attribute',A)],
 [('shared parameters','must be shared within a model, never between models',M),('phrase storage','owned samples of a phrase',P)],
 ['content and behaviour of each object compared with a lone twin'])
prop('C11','Saving, crashing and restoring gives back the same object',
 'An object that was completely saved before the process ended, in whatever way, is restored by a new process as an observably identical one: same configuration and parameters, exactly the same recognition and regression results for every further input stream, and the same saved form when saved again. This holds for models, single distributions, phrases and training sets of every supported configuration, trained or untrained, that hold finite values; a phrase whose input and output streams differ in length is restored with its complete frames.',
 ['crash_points','configurations','histories'],
 'all configurations and training histories, save and crash at any point of a history of training, filtering and per-class operations, any input stream afterwards',
 'Tests round-trip one default configuration of each type through memory and compare parameters; other covariance and transition modes, settings and continued filtering are not reached.',
 [J,JC,M,GS,HS,HH,G,D,P,T,SP,CF,GP,HP],
 [('toJson/fromJson pairs of every persistent type',M+', '+GS+', '+HS+', '+HH+', '+D+', '+P+', '+T),('file writing and reading',J+': writeFile, readFile')],
 [],
 ['restored object against the original: saved form and filtering results'])
prop('C12','Loading a damaged or foreign file is safe',
 'Loading a file that was truncated, torn, partly overwritten, zeroed in places, bit-flipped or edited, or that belongs to another type of object, either throws an exception and leaves the target as it was, or succeeds and yields an object whose further use is safe: it can be used, saved and trained again, and each of these either works or throws. It never corrupts memory, hangs or terminates the process. A file cut short by a crash while it was being written is never accepted as a smaller but valid object.',
 ['fault_sequences','crash_points','inputs'],
 'all damage patterns of a saved file: prefixes at every length, lost and zeroed sectors, flipped bits and digits, structural edits of the document, read errors while loading',
 'Tests only load what they have just written; the error paths of loading run in no test.',
 [J,JC,M,GS,HS,HH,D,P,T,SP,CF,GP,HP,'dependencies/jsoncpp/src/json_reader.cpp'],
 [('type and size checks while reading arrays',JC+': json2array, json2vector'),('restore into a temporary, then assign',M+': fromJson and the other fromJson'),('parse failure reported',J+': readFile')],
 [],
 ['exception or object after loading','memory safety of loading and of later use'])
prop('C13','A save that did not reach the disk completely is reported',
 'If writing an object to a file fails at any point (the file cannot be created, the disk is full, a write fails, is short, or the final flush fails), the caller is told by an exception; when saving returns normally, the file holds the complete saved form. Transient conditions such as interrupted or partial writes that can be completed do not lose data. The saved object itself is never changed by saving, successful or not.',
 ['fault_sequences','crash_points'],
 'all positions and kinds of write-path failures, all object types and sizes',
 'Tests never write to a file, let alone a failing one.',
 [J],
 [('file writing',J+': writeFile')],
 [],
 ['exception or normal return of saving against the bytes on the simulated disk'])
prop('C14','Recognition results stay well-formed on any input stream',
 'After every processed frame of any stream, including lost, repeated, reordered, late, extreme or non-finite frames, the normalised likelihoods of the classes are each between zero and one, sum to one and are in proportion to the likelihoods wherever these can be normalised, and the class reported as likeliest is the one with the largest smoothed log-likelihood. The smoothed log-likelihood of each class is the mean of the logarithms of its instantaneous likelihoods over the last frames in the window and no others, is never not-a-number, and time progression and exit ratios lie between zero and one. Predicted outputs are finite as long as every frame is finite and of ordinary magnitude.',
 ['inputs','histories','fault_sequences'],
 'all frame sequences as a faulty sensor transport can deliver them, for both model types, all window lengths and settings',
 'Tests filter clean recorded data with one window length and check a few values; they include no lost, repeated or non-finite frame.',
 [G,GS,HH,HS,CB,D],
 [('normalisation and choice of the likeliest class',G+': updateResults; '+HH+': updateResults'),('sliding window of likelihoods',CB+'; '+GS+': updateResults; '+HS+': updateResults'),('floor and non-finite guard of Gaussian likelihoods',D+': likelihood')],
 [('likelihood buffer','last window of instantaneous likelihoods',SH)],
 ['results after each frame'])
prop('C15','Resetting makes a model forget its input completely',
 'After a reset, the results for a stream are exactly those a freshly trained, restored or copied model gives for it, whatever frames were received or sequences interrupted before. For GMMs no reset is even needed: once a full window of frames has passed, results no longer depend on anything received earlier. Neither filtering nor resetting ever changes what the model has learned.',
 ['histories','inputs','fault_sequences'],
 'all streams cut off by a reset at any frame, all faulty frames before the reset, both model types and all settings',
 'Tests start from a new model or reset once; they do not compare behaviour after different pasts.',
 [HH,HS,G,GS,CB,S],
 [('reset of every class and of the forward variables',HH+': reset; '+HS+': reset; '+S+': reset'),('initialisation of the forward algorithm',HH+': forward_init; '+HS+': forward_init')],
 [('forward variables','state of the ongoing recognition',HS)],
 ['results after reset against a twin that has no past'])
prop('C16','Recording a phrase loses and invents nothing',
 'A phrase contains exactly the frames recorded into it since it was last cleared, in order and bit for bit, however many there are and however recordings of input and output streams interleave; its length is that of the shorter stream and reading beyond what was recorded is refused. A recording that is refused or that fails for lack of memory leaves the recorded content intact. Copying, assigning, relabelling, renaming columns or saving a phrase never alters its content, and connected external data is read in place, never freed, and never written to except by an explicit rescaling.',
 ['histories','fault_sequences','inputs'],
 'all histories of recording, clearing, copying and assigning, with input and output frames delivered by two independent streams (delay, loss, duplication), memory exhaustion at any growth step',
 'Tests record a short phrase in one order; growth boundaries, stream skew, copies of partly filled phrases and allocation failures are not exercised.',
 [P,'src/core/trainingset/xmmPhrase.hpp'],
 [('block-wise growth of the sample buffers',P+': reallocateLength'),('length of the shorter modality',P+': trim'),('copy constructor and assignment',P)],
 [('lengths of the two modalities','how far each stream has been recorded',P)],
 ['content read back against a list of recorded frames'])
prop('C17','A training set always agrees with the phrases it contains',
 'After any history of adding, replacing, removing and relabelling phrases, clearing, copying, assigning, saving and restoring, the set of labels is exactly the labels of the phrases present, and the sub-set of each label holds exactly the phrases of that label under their own numbers. Dimensions and column names stay consistent between a training set, its sub-sets and its phrases, and statistics and rescaling are those of exactly the recorded frames. A copy is a snapshot that later changes of the original do not reach, and the reverse.',
 ['histories','fault_sequences','crash_points'],
 'all histories of operations on several training sets and their phrases, with phrases relabelled through any owner, restarts from saved form and memory exhaustion during an operation',
 'Tests build one training set and compare its saved form; label changes after insertion, removal, replacement and copies are not combined.',
 [T,P,EV],
 [('labels and sub training sets rebuilt on every change',T+': update'),('relabelling reported by the phrase',P+': onAttributeChange; '+T+': onPhraseEvent')],
 [('labels and sub training sets','index over the phrases',T)],
 ['public view of the training set against a map from number to label and frames'])
prop('C18','EM estimates improve and converge on every data set',
 'On every training set the log-likelihood reported by successive training iterations never decreases apart from the regularisation, and the estimated parameters maximise the likelihood of the data locally.',
 ['inputs'],'all training sets and configurations','Depends only on the numbers fed in.',
 [S,GS,HS],[('EM update',GS+': emAlgorithmUpdate; '+HS+': emAlgorithmUpdate')])
prop('C19','Regression and covariance algebra are mathematically correct',
 'Conditional means, output covariances, determinants, inverses, ellipses and conversions between full and diagonal covariance agree with their mathematical definition for every valid parameter value.',
 ['inputs'],'all valid parameters','Tests sample a few matrices.',
 [D,'src/core/common/xmmMatrix.hpp'],[('closed-form updates',D)])
prop('C20','Settings outside their permitted range are refused',
 'Setting any parameter of a model, distribution or data container outside its documented range throws and leaves the previous value in force.',
 ['inputs'],'all values of all parameters','Tests set a few values only.',
 [A],[('range check when setting',A+': set')])
prop('C21','Recognition and regression follow the learned probabilistic model',
 'For every stream, after each frame, the likelihoods of each class, the probabilities of leaving it, its likeliest state and time progression, and in regression models the predicted output and its covariance are those that the forward recursion (for mixtures: the mixture density) over exactly the frames received since the last reset gives under the learned parameters, with the configured regression estimators and the configured combination of the classes. A K-means model reports the distances to its centres and the nearest one. This holds for hierarchical and non-hierarchical, ergodic and left-right models, whatever was filtered, trained, copied, restored or removed before.',
 ['inputs','histories','fault_sequences','configurations'],
 'all frame sequences as a faulty sensor transport can deliver them, all histories of training, copying, restoring, exit points, class removal and resets before and between them, all settings',
 'Tests compare a few values of one recorded stream under a handful of settings; the state carried from frame to frame is never recomputed independently.',
 [HH,HS,G,GS,'src/models/kmeans/xmmKMeans.cpp'],
 [('forward recursion over classes and states',HH+': forward_init, forward_update'),('forward recursion of one class',HS+': forward_init, forward_update'),('regression and combination of classes',HS+': regression; '+GS+': regression; '+G+': filter; '+HH+': filter'),('nearest centre','src/models/kmeans/xmmKMeans.cpp: filter')],
 [('forward variables','state of the ongoing recognition',HS)],
 ['results after each frame against an independent recomputation from the learned parameters'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in L: f.write(json.dumps(p,ensure_ascii=False)+'\n')
