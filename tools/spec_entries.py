SER_FILES = ['hermespy/core/factory.py', 'hermespy/core/antennas.py', 'hermespy/core/device.py', 'hermespy/core/drop.py', 'hermespy/core/signal_model.py',
             'hermespy/modem/modem.py', 'hermespy/modem/waveform.py', 'hermespy/fec/coding.py', 'hermespy/channel/channel.py', 'hermespy/simulation/simulated_device.py']
SER_MECH = [('HDF archive backend of (de)serialization processes', 'hermespy/core/factory.py'),
            ('serialize / Deserialize methods of every storable type', 'all packages'), ('list of types registered with the factory', 'hermespy/core/factory.py')]

prop('S01', 'Restoring from an archive only asks for what saving wrote',
     'Whatever an object writes when it is saved to an archive is sufficient to restore it: restoring never requests a mandatory field that saving may leave out, '
     'requests every field as the kind of data it was written as, and recreates an object of the saved type from arguments that type accepts. '
     'This holds for every state the saved object can be in, including empty, unset and conditionally present parts.',
     ['inputs', 'configurations'], 'every storable type and every reachable state of its instances',
     'Round trip tests save one sample configuration per type, several types are never round tripped, and branches depending on optional parts are not entered.',
     SER_FILES, SER_MECH, 'abstract interpretation of writer and reader pairs; set and kind comparison of archive fields per path',
     'Both sides of each of the ~250 concrete storable types are interpreted over symbolic provenance terms with helpers and super calls inlined; every read is matched against every write under its path condition.')
prop('S02', 'A restored value ends up in the quantity it was saved from',
     'A field saved from some quantity of an object is restored into that same quantity of the restored object, neither dropped, swapped with another quantity, '
     'replaced by a default, nor converted into a different value. Undefined quantities are restored as undefined.',
     ['inputs', 'configurations'], 'every storable type, every saved field and every value it can take',
     'Round trip tests compare default configured samples, in which swapped or dropped quantities frequently have equal values, and blacklist many properties.',
     SER_FILES, SER_MECH, 'provenance dataflow through save and restore over all types',
     'For each field the heap locations feeding the writer are compared with those the restoring constructor path stores the read value to.')
prop('S03', 'Configuration survives saving and restoring',
     'Every setting a storable component accepts at construction and that influences its behaviour, including its random seed, is part of the archive the component is saved to '
     'and is applied again to the restored component.',
     ['configurations'], 'every constructor parameter of every storable type',
     'Tests restore components with default settings, for which a lost setting is restored to an equal default.',
     SER_FILES, SER_MECH, 'provenance dataflow constructor parameter -> saved field -> restored state',
     'Constructor parameters are traced into object state; the state reachable from saved fields must cover them. Parameters lost on the pinned tree are listed one by one as known findings.')
prop('S04', 'Every storable type can be found again by the archive reader',
     'Each concrete storable type is registered with the archive factory under a tag unique to the type, so that an object saved as such a type, also as part of another object, '
     'can be restored without the reader knowing the type in advance. Names a package declares public exist.',
     ['programs'], 'every concrete storable type, including those added by subclassing inside the library',
     'No test enumerates all types; restoring with an explicitly given type hides a missing registration.',
     SER_FILES, SER_MECH, 'whole program class hierarchy and export table analysis',
     'Enumerates all concrete subclasses of the storable interface, the import closure the factory scans, and their tags.')


prop('R01', 'All randomness comes from the seeded hierarchy',
     'Every random decision of the library is drawn from a generator that is derived from an explicit seed: the generator of the component itself, that of its random mother, '
     'or one created with a seed. Nothing consults global random state, fresh operating system entropy, wall clock time, object identities, or the iteration order of '
     'hash-ordered collections to compute results, so that identical configurations and seeds give identical results.',
     ['configurations', 'histories'], 'every random draw and every iteration whose order could influence results',
     'Reproducibility tests compare two runs of selected components inside one process, where hash order, entropy fallbacks and forgotten draws in rarely used branches do not show.',
     ['hermespy/core/random_node.py', 'hermespy/simulation', 'hermespy/channel', 'hermespy/modem', 'hermespy/hardware_loop'],
     [('random generator hierarchy', 'hermespy/core/random_node.py'), ('every call of a random function', 'all packages')],
     'whole program provenance analysis of generators; iteration order lint on set typed values',
     'Every call that draws random numbers is classified by the provenance of its generator; iterations over sets feeding ordered results are reported.')
prop('R02', 'Seeds reach every random component',
     'Seeding a simulation, a device or a channel determines the randomness of everything that belongs to it: a component added to a parent draws from the parent\'s '
     'generator from then on, a seed passed to a constructor seeds the created component, and assigning a seed restarts its generator.',
     ['configurations', 'histories'], 'every pair of parent and owned random component, every constructor accepting a seed',
     'Tests check the hierarchy of the base class and a few parents; a component left outside the hierarchy still passes all functional tests.',
     ['hermespy/core/random_node.py', 'hermespy/simulation/scenario.py', 'hermespy/simulation/simulated_device.py', 'hermespy/fec/coding.py', 'hermespy/simulation/rf/chain.py'],
     [('random mother assignment when components are added', 'hermespy'), ('forwarding of seeds to base constructors', 'hermespy')],
     'ownership and must-call analysis over all containers of random components; argument forwarding analysis of constructors',
     'All container attributes holding random components are enumerated; each insertion must be accompanied by an assignment of the random mother on the same path.')
prop('R03', 'Realizations can be evaluated repeatedly',
     'Once a random component has been realized, the realization is complete: evaluating it (sampling a channel realization, propagating signals over a sample, adding a noise realization) '
     'draws no further random numbers, changes nothing in the realization or the component, and gives the same result again; later changes to the component do not alter it. '
     'The state of a device or an antenna array describes one point in time: later changes of the device leave it unaltered.',
     ['inputs', 'histories'], 'every realization type and every sequence of evaluations',
     'Tests evaluate a realization once or twice with the same arguments and mostly compare against a second draw.',
     ['hermespy/channel', 'hermespy/core/channel.py', 'hermespy/simulation/rf', 'hermespy/simulation/isolation', 'hermespy/simulation/coupling'],
     [('_realize of components', 'hermespy/channel'), ('_sample and propagate of realizations and samples', 'hermespy/channel')],
     'interprocedural effect analysis of realization and sample classes',
     'All methods of the realization and sample types are checked for random draws, self modification and containers shared with the component; states of devices and antenna arrays for live parts of the device.')
prop('A01', 'Inputs are never modified',
     'No operation modifies the signals, symbols, arrays, states, realizations, device inputs or other exchanged values it is given: after any call, every argument still holds '
     'the values it was called with. Only methods documented to update an object change the object they are called on.',
     ['inputs', 'histories'], 'every function of the library and every exchanged value passed to it',
     'Tests check results, hardly ever that arguments are untouched; modification often needs particular shapes or types for which a view instead of a copy is taken.',
     ['hermespy/core/signal_model.py', 'hermespy/core/channel.py', 'hermespy/channel', 'hermespy/simulation', 'hermespy/modem', 'hermespy/beamforming', 
      'hermespy/radar', 'hermespy/fec'],
     [('every function receiving exchanged values', 'all packages'), ('copy discipline of Signal, SignalBlock, Symbols', 'hermespy/core/signal_model.py')],
     'interprocedural alias and side effect analysis (bottom-up summaries, fixpoint over the call graph)',
     'For each of the ~1100 parameters holding an exchanged value, no store, in-place operator, mutating method or out argument may reach it through aliases, views or callees.')
prop('A02', 'Data objects do not change by being used',
     'Reading properties of, evaluating, plotting, saving or passing on a data object (signal, symbols, channel state, realization, sample, transmission, reception, evaluation, artifact, point cloud) '
     'never changes it. Using it again gives the same result.',
     ['inputs', 'histories'], 'every method and property of every data type, apart from setters and documented in-place updates',
     'Tests use most data objects once.',
     ['hermespy/core', 'hermespy/channel', 'hermespy/modem', 'hermespy/radar', 'hermespy/simulation'],
     [('methods and properties of exchanged value types', 'all packages')],
     'interprocedural side effect analysis on the receiver',
     'All methods and getters of the ~150 data types must be free of stores reachable from their receiver.')
prop('A03', 'Operations leave no hidden state behind',
     'The result of an operation of a component (transmitting, receiving, realizing, encoding, demodulating, beamforming, evaluating, any property) depends on its arguments, its configuration and '
     'its random generator, not on which operations were executed before: operations and property reads do not store anything in the component, apart from the documented state of '
     'the few components whose purpose is to keep it (recorded campaigns, most recent realization, scrambler registers, hardware drivers).',
     ['histories', 'configurations'], 'every operation and property of every component and every history of preceding operations',
     'Tests set up fresh components and exercise single operations; dependence on a previous operation with another configuration is invisible.',
     ['hermespy/core', 'hermespy/modem', 'hermespy/channel', 'hermespy/beamforming',  'hermespy/radar', 'hermespy/jcas', 'hermespy/simulation', 'hermespy/fec'],
     [('value returning methods and properties of components', 'all packages')],
     'side effect analysis of all value returning operations on the receiver',
     'All ~1100 operations and getters are enumerated; each store into the receiver must be on a reviewed attribute.')
prop('I01', 'Separate objects are independent',
     'Objects created separately never influence each other: creating, configuring, using or discarding one leaves every other one unaffected unless it was explicitly handed to it. '
     'Default values of parameters, class level defaults and module level tables never change, copies share nothing modifiable with their original, and entries of a container created together '
     'are distinct objects.',
     ['histories', 'configurations'], 'every class, default argument, class attribute, module table and copy operation',
     'Tests create one object per test case; sharing shows only with two objects and a particular order of modifications.',
     ['hermespy/core', 'hermespy/channel', 'hermespy/modem', 'hermespy/fec', 'hermespy/simulation', 'hermespy/radar'],
     [('default arguments, class attributes and module level objects', 'all packages'), ('copy methods', 'hermespy/core, hermespy/modem, hermespy/simulation')],
     'escape and alias analysis of shared mutable objects',
     'Every mutable default, class level and module level object is tracked as a root through all functions; modification, retention or handing out is reported.')
prop('X01', 'Remembered results are never out of date',
     'A value computed once and remembered, or derived from a setting at construction, always equals what would be computed from the current configuration: whenever something it depends on is changed through '
     'the interface of the library, the remembered value is dropped or derived again, also in objects depending on the changed object. Remembered results are not modified by those using them.',
     ['histories', 'configurations'], 'every cached property, memoized function and constructor derived attribute; every function changing what they depend on',
     'Tests read a value once after setting everything up; staleness needs read, change, read again.',
     ['hermespy/core/transformation.py', 'hermespy/core/operators.py', 'hermespy/channel/fading/fading.py', 'hermespy/channel/cdl/cluster_delay_lines.py', 'hermespy/modem/modem.py',
      'hermespy/simulation/rf/blocks/ramp.py'],
     [('kinematic chain transformations and their invalidation', 'hermespy/core/transformation.py'), ('cached properties and memoized functions', 'all packages'),
      ('attributes derived in constructors and their setters', 'all packages')],
     'dependency analysis of remembered values against all writers; must-invalidate path analysis',
     'Reads of each remembered value are collected through helpers; every function writing one of them must drop the value on the same path; for every setter the constructor derived state is recomputed.')

prop('K01', 'No option is silently ignored',
     'Every argument a function, constructor or setter of the library accepts has an influence on what it returns or does. An option accepted by a function that delegates its work to an implementation, '
     'overload or base class constructor reaches that implementation instead of being replaced by its default. Values configured through constructors and setters are read by at least one operation.',
     ['configurations'], 'every parameter of every implemented function; every delegation; every stored setting',
     'Tests call functions with default options or check that a call succeeds; an argument without effect passes them all.',
     ['hermespy/core', 'hermespy/channel', 'hermespy/modem', 'hermespy/simulation', 'hermespy/radar', 'hermespy/hardware_loop', 'hermespy/fec', 'hermespy/beamforming', 'hermespy/jcas'],
     [('parameters of all functions', 'all packages'), ('super class constructor invocations and delegations', 'all packages'), ('attributes stored by constructors and setters', 'all packages')],
     'parameter data and control flow analysis; delegation completeness; dead setting analysis',
     'All ~4000 parameters are traced to results, effects or decisions; implementations that are independent of a parameter by design are a reviewed table.')
prop('K02', 'Values reach the quantity they are passed for',
     'A value is never handed to the parameter, attribute or field of another role: transmit and receive, azimuth and zenith, arrival and departure, alpha and beta, minimum and maximum, samples and streams '
     'and any two parameters of the same function are not interchanged at any call. A method overriding another one accepts the same arguments in the same order with the same defaults, '
     'so that it can be invoked through its base class.',
     ['configurations', 'inputs'], 'every invocation, attribute assignment and override in the library',
     'Tests mostly use symmetric set-ups (same number of transmit and receive antennas, same device at both ends), in which interchanged roles are invisible.',
     ['hermespy/core', 'hermespy/channel', 'hermespy/modem', 'hermespy/simulation', 'hermespy/radar', 'hermespy/hardware_loop', 'hermespy/beamforming', 'hermespy/jcas'],
     [('argument binding of all resolved invocations', 'all packages'), ('signatures of overriding methods', 'all packages')],
     'role analysis of argument binding, override conformance',
     'All ~7000 bound arguments and ~1500 overrides are compared by role name; deliberate interchanges (the reciprocal channel) are a reviewed table.')
prop('K03', 'Operations honour the configuration that governs them',
     'The result of an operation depends on each configuration option documented to govern it, and on the sampling rate, carrier frequency, bandwidth, oversampling factor, delay and noise power of the '
     'signals, devices and states it is handed: no operation uses a constant, a default value or another option instead of the configured one.',
     ['configurations'], 'every operation of every component and every option it depends on',
     'Tests use one configuration, mostly the default one; an operation using a hard coded value or the wrong option agrees with it there.',
     ['hermespy/core', 'hermespy/channel', 'hermespy/modem', 'hermespy/simulation', 'hermespy/radar', 'hermespy/hardware_loop', 'hermespy/fec', 'hermespy/beamforming', 'hermespy/jcas'],
     [('public operations and interface hooks of all classes', 'all packages')],
     'interprocedural dependence analysis against reviewed dependence contracts',
     'For all ~2500 operations the set of options read through helpers and properties is computed from the current source and compared to the reviewed contract of the operation.')
prop('M02', 'Computed results are delivered',
     'What a function computes is used: no signal, evaluation result, estimate, artifact or argument list is computed and then dropped, overwritten before use, or collected in a container nobody reads, '
     'and the result of combining signals is the one that is processed further.',
     ['inputs', 'histories'], 'every local variable, every container filled and every invocation whose result is dropped',
     'A dropped contribution does not raise an error; tests checking shapes and types pass.',
     ['hermespy/core', 'hermespy/channel', 'hermespy/modem', 'hermespy/simulation', 'hermespy/radar', 'hermespy/hardware_loop', 'hermespy/fec', 'hermespy/beamforming', 'hermespy/jcas'],
     [('local variables of all functions', 'all packages'), ('invocations used as statements', 'all packages')],
     'liveness analysis of computed values and purity analysis of discarded results',
     'Backward liveness over every function; effect summaries decide whether an invocation whose result is dropped had any other purpose.')
prop('M01', 'Campaign results belong to the grid section they are reported for',
     'Every sample of a Monte Carlo campaign is generated with each grid dimension configured to the sample point of the section the sample is recorded for, '
     'with every simulation stage that the changed dimensions impact executed again on the outcome of the preceding stages, '
     'and its artifacts are added, evaluator by evaluator, to the results at exactly that section. Queue, actors, collector and reported result agree on the order of dimensions and evaluators, '
     'stage identifiers, stage arguments and registered impacts name the stages they mean, and scalar results are means over the artifacts of their own section.',
     ['configurations', 'schedules', 'histories'], 'every grid, batch composition, order of evaluators and dimension registration',
     'Tests run single dimension grids, in which order and section mix ups are invisible, and mock the stages.',
     ['hermespy/core/pymonte/actors.py', 'hermespy/core/pymonte/monte_carlo.py', 'hermespy/core/pymonte/grid.py', 'hermespy/core/pymonte/scalar.py', 'hermespy/core/pymonte/artifact.py', 'hermespy/simulation/simulation.py'],
     [('batch execution of actors', 'hermespy/core/pymonte/actors.py'), ('campaign launch', 'hermespy/core/pymonte/monte_carlo.py'), ('grid dimensions', 'hermespy/core/pymonte/grid.py'), ('simulation stages', 'hermespy/simulation/simulation.py')],
     'provenance dataflow of grid indices, sections, artifacts and stage state',
     'The origin of every index, section, artifact and stage input is derived by abstract interpretation of the campaign code and compared with the section being run; stage inputs are checked against the stages writing them.')
prop('M03', 'No sample is lost or counted twice',
     'Every section handed out to an actor is counted, run, and its samples are added to the results exactly once, for every interleaving of queue, actors and collector '
     '(except for batches aborted by an exception the campaign was told to ignore): '
     'sections are handed out until each has the configured number of samples, batches stashed by an actor are removed only by returning them, concurrent collection does not overlap, '
     'and the final results are compiled only after all actors have finished and everything they stashed has been fetched.',
     ['schedules', 'histories'], 'every interleaving of actor, queue manager and collector operations',
     'The interleaving is decided by the ray scheduler; tests run small campaigns in silent mode and do not count the artifacts.',
     ['hermespy/core/pymonte/actors.py', 'hermespy/core/pymonte/monte_carlo.py'],
     [('queue manager', 'hermespy/core/pymonte/actors.py'), ('actor stash', 'hermespy/core/pymonte/actors.py'), ('collector', 'hermespy/core/pymonte/actors.py'), ('campaign termination', 'hermespy/core/pymonte/monte_carlo.py')],
     'provenance dataflow of sections and samples, lock and check-then-clear analysis of state shared by concurrent entry points',
     'All accesses to the state shared between concurrently executing entry points and all paths from handing out a section to adding its artifact are enumerated from the source.')

prop('U01', 'Physical quantities agree in their dimensions',
     'Times, rates, distances and velocities are never mixed up: seconds, hertz, metres, metres per second and numbers of samples are only added, subtracted, compared and assigned among themselves, '
     'quantities passed to, stored in and returned by documented parameters and properties have the dimension documented for them, arguments of exponentials and trigonometric functions are dimensionless, '
     'and sample indices, counts and buffer sizes are dimensionless products of durations and sampling rates. No delay is applied in the wrong unit, and no duration is multiplied by a sampling interval or divided by a rate.',
     ['configurations', 'inputs'], 'every expression combining physical quantities, for every value of sampling rate, carrier frequency, delay, range and velocity',
     'Tests use sampling rates, delays or offsets of one or zero, for which a confused product and quotient agree, or check shapes only.',
     ['hermespy/core/signal_model.py', 'hermespy/channel', 'hermespy/radar', 'hermespy/jcas', 'hermespy/modem', 'hermespy/simulation', 'hermespy/hardware_loop', 'hermespy/beamforming', 'hermespy/core/antennas.py'],
     [('arithmetic of physical quantities', 'all packages'), ('parameters and properties with documented units', 'all packages')],
     'dimensional analysis (s, m) by abstract interpretation',
     'Dimensions of parameters and properties are taken from their documented units, names and integer annotations and propagated through all expressions, library functions and return values; every operation joining two known dimensions is an obligation.')

prop('W01', 'Processing chains are wired completely',
     'Every operation composed of processing steps of other components performs all of its steps, and hands each of them the outcome of the steps before it, the inputs and the physical quantities it is meant to work on. '
     'Coding, precoding, mapping, modulation, resampling, radio frequency blocks, antennas, leakage, noise, channel propagation, synchronization, channel estimation, equalization, detection, calibration and evaluation are never bypassed; '
     'no step works on data a preceding step has already superseded, on the input of another step, or with a constant, a default or another quantity in place of the sampling rate, carrier frequency, bandwidth, delay, power, timestamp or device state '
     'of the object being processed; and what a step computed is part of what the operation returns or hands to the next one.',
     ['configurations', 'inputs', 'histories'], 'every operation of the library and every argument of every step it invokes',
     'Default configurations use identity steps (no coding, ideal hardware, one antenna, equal sampling rates, timestamp zero), for which a bypassed step or a replaced argument is invisible; unit tests mock the neighbouring steps.',
     ['hermespy/core', 'hermespy/channel', 'hermespy/modem', 'hermespy/simulation', 'hermespy/radar', 'hermespy/jcas', 'hermespy/beamforming', 'hermespy/fec', 'hermespy/hardware_loop'],
     [('receive and transmit operations of operators', 'hermespy/modem/modem.py'), ('device transmission and reception', 'hermespy/simulation/simulated_device.py'), ('radio frequency chains', 'hermespy/simulation/rf'),
      ('channel realization and propagation', 'hermespy/channel/channel.py'), ('beamforming and precoding', 'hermespy/beamforming'), ('coding pipelines', 'hermespy/fec/coding.py')],
     'forward flow analysis of arguments and results against a reviewed flow contract',
     'Flow of arguments, step results, options and quantities of exchanged objects into each argument of each step and into the result, through locals, containers and helpers; compared with the flows the contract lists for the operation. '
     'Which flows are required was reviewed on one tree; additional flows and steps are not judged, nor are values of the same provenance told apart.')

na('N01', 'Noiseless links are transparent',
   'For every waveform and coding configuration, the bits received over an ideal noiseless link equal the transmitted bits.',
   ['configurations', 'inputs'], 'all waveform parameters, all bit sequences', 'Tests sample a handful of waveform configurations and random bits.',
   ['hermespy/modem/waveform.py', 'hermespy/modem/modem.py'], [('modulate / demodulate pairs', 'hermespy/modem')],
   'Equality of numerical results of FFT, filtering and mapping chains; no static argument in reach bounds them. Structural clauses (coding order, parameters forwarded) are claimed elsewhere.')
na('N02', 'Channel realizations are power calibrated',
   'The expected energy transported by a channel sample equals the gain configured for the channel, for every channel model and antenna configuration.',
   ['configurations'], 'all channel models, parameters and random states', 'Statistical property over all draws; tests average a few hundred draws of selected models.',
   ['hermespy/channel/channel.py', 'hermespy/channel/fading/fading.py'], [('path power normalisation', 'hermespy/channel')],
   'Statement about expectations of random numerical results.')
na('N03', 'Noise power matches the configured signal to noise ratio',
   'Noise added at a receiver has exactly the average power implied by the configured noise level and its reference.',
   ['configurations', 'inputs'], 'all noise levels and device configurations', 'Statistical numerical property.',
   ['hermespy/simulation/rf/noise/level.py', 'hermespy/simulation/rf/noise/model.py'], [('noise level implementations', 'hermespy/simulation/rf/noise')],
   'Value level arithmetic of powers and expectations of random draws; not decidable from the shape of the code.')
na('N04', 'Monte Carlo confidence guarantees',
   'A simulation stopped early by its confidence criterion has an estimate within the configured tolerance with at least the configured probability.',
   ['inputs', 'histories'], 'all sample distributions', 'Probabilistic guarantee over the sample distribution.',
   ['hermespy/core/pymonte/scalar.py'], [('confidence bound computation', 'hermespy/core/pymonte')],
   'Quantifies over probability distributions of runtime samples.')
na('N05', 'Radar estimates lie at the true target range and velocity',
   'The peak of a radar image over a single target channel lies within one resolution cell of the true range and velocity.',
   ['configurations', 'inputs'], 'all waveforms, ranges and velocities', 'Tests probe single targets at a few ranges.',
   ['hermespy/radar/radar.py', 'hermespy/radar/fmcw.py', 'hermespy/jcas/matched_filtering.py'], [('range/doppler processing', 'hermespy/radar')],
   'Numerical result of signal processing chains.')
na('N06', 'Decoders correct every correctable error pattern',
   'Each forward error correction scheme recovers the data whenever the number of bit errors does not exceed its correction capability.',
   ['inputs'], 'all data blocks and error patterns', 'Exponentially many patterns, tests sample few; several decoders are external binaries.',
   ['hermespy/fec/coding.py', 'hermespy/fec/repetition_encoder.py'], [('encode / decode pairs', 'hermespy/fec')],
   'Input/output behaviour of numerical algorithms, partly in a compiled third party library whose source is outside the Python program analysed.')
