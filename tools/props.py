# Read by gen.py.
SMALL = ('The unit tests compare hand-picked pairs of configs with recorded '
         'output.')

prop('C01', 'A delta turns the source config into the destination config',
     'For any two configs of one device and any choice of the delta options '
     '(preferred create / replace / delete operation, minimum or replace diff '
     'with any replace depth), sending the delta to a server that implements '
     'NETCONF edit-config on top of the source leaves exactly the '
     'destination.  The server accepts every operation in the delta: no '
     'delete of a missing node, no create of an existing node, no insert '
     'relative to a missing entry.',
     ['inputs', 'configurations'],
     'all pairs of configs of a schema with containers, presence, lists, '
     'multi-key lists, leaf-lists, user-ordered nodes, choices (nested, with '
     'default, at root), augments, defaults, identityref and '
     'instance-identifier values; all option combinations',
     SMALL + '  The property quantifies over all pairs and all options, and '
     'no test ever applies a delta with a server.',
     ['netconf.py', 'config.py', 'calculator.py'],
     [('NetconfCalculator.sub', 'netconf.py'),
      ('ConfigDelta.nc', 'config.py')],
     ['ConfigDelta.nc', 'str(delta)'],
     'exhaustive pairwise exploration of config states, each delta executed '
     'on a reference NETCONF server model',
     'Complete over the enumerated config universe (about 1,000 configs in '
     'about 30 schema slices quick, thousands thorough) and 20 option sets.  Trusts '
     'the reference server in mc/data.py, which is bound to the code by C03.')

prop('C02', 'Predicted configs equal what the delta leads to',
     'Adding a delta to its source config, in whichever form (the delta '
     'object, its XML text, an rpc, an element), predicts exactly the '
     'destination, and adding the reverse delta to the destination gives the '
     'source back.  Constructing a delta from a source and an edit-config '
     'gives the same destination.',
     ['inputs', 'configurations', 'histories'],
     'all pairs of configs, delta options and forms of the delta; '
     'round trips src -> dst -> src',
     SMALL + '  They never relate addition and subtraction for all inputs.',
     ['config.py', 'netconf.py'],
     [('Config.__add__ / Config.__sub__', 'config.py'),
      ('NetconfCalculator.add', 'netconf.py')],
     ['Config.__add__', 'ConfigDelta(config_src, delta=)', '-delta'],
     'exhaustive exploration of config pairs and transition laws',
     'Complete over the enumerated universe; equality is decided on an '
     'independent canonical data tree, not with ncdiff comparisons.')

prop('C03', 'Adding an edit-config predicts what a NETCONF server would do',
     'For any config and any edit-config content (operations merge, replace, '
     'create, delete, remove in any combination, nested, with insert first / '
     'last / before / after on user-ordered nodes), config + edit gives the '
     'config that a conforming server would hold afterwards.  It raises an '
     'error when and only when the server would reject the edit.',
     ['inputs', 'histories'],
     'all configs x all edits of each schema slice, and sequences of edits',
     'Tests contain a handful of edits with one operation each; combinations '
     'of operations, insert attributes and existing data are unbounded.',
     ['netconf.py', 'calculator.py', 'config.py'],
     [('NetconfCalculator.node_add and _node_add_*', 'netconf.py')],
     ['Config + str', 'Config + Element'],
     'explicit-state exploration of the server model, every transition '
     'replayed on the implementation (conformance)',
     'Complete over the enumerated edits (1.2 million transitions quick).  '
     'The reference server is written from RFC 6241 / RFC 7950.')

prop('C04', 'Config comparison is containment, whatever the writing',
     'The operators <=, <, >=, >, == and != on configs decide structural '
     'containment of their data and agree with each other; they form a '
     'partial order.  The verdict depends only on the data: not on prefixes, '
     'layout, comments, sibling order of system-ordered nodes or the '
     'envelope around the config, and it does respect the order of '
     'user-ordered nodes.',
     ['inputs'],
     'all pairs of configs of every schema slice, in all enumerated writings',
     'Tests compare a few literal configs; the order laws and independence of '
     'writing quantify over all pairs and spellings.',
     ['calculator.py', 'config.py', 'ref.py'],
     [('BaseCalculator._node_le', 'calculator.py'),
      ('Config.__eq__ etc.', 'config.py')],
     ['Config comparison operators'],
     'exhaustive pairwise comparison against a structural oracle',
     'Complete over the universe and 15 to 17 writings per config.')

prop('C05', 'Config construction keeps the data and rejects invalid data',
     'Building a config from any accepted writing (string, element, data, '
     'rpc-reply, edit-config, rpc) keeps exactly its data: defaults that '
     'equal the schema default and empty non-presence containers vanish, '
     'nothing else does, and building again from the output changes nothing. '
     'Unknown nodes, unknown models, missing list keys and other invalid '
     'content are rejected with an error, never silently dropped.',
     ['inputs'],
     'all configs in all writings; all single mutations of them that make '
     'them invalid',
     'Tests build a few literal configs.',
     ['config.py', 'netconf.py', 'manager.py'],
     [('Config.validate_config', 'config.py'),
      ('NetconfParser', 'netconf.py')],
     ['Config()', 'Config.ele', 'Config.xml'],
     'exhaustive enumeration of configs, writings and mutations',
     'Complete over the universe, its writings and the listed mutations.')

prop('C06', 'Operations never modify or share their operands',
     'No comparison, addition, subtraction, filter, copy, delta or rendering '
     'changes the configs, deltas, elements or strings it is given.  Results '
     'share no mutable node with the operands: changing a result later never '
     'changes an operand, and the other way round.',
     ['inputs', 'histories'],
     'all operations on all pairs of configs, followed by mutation of every '
     'result',
     'Tests look at results only, not at operands afterwards.',
     ['config.py', 'netconf.py', 'calculator.py'],
     [('deep copies in NetconfCalculator.add/sub', 'netconf.py'),
      ('Config.__deepcopy__', 'config.py')],
     ['Config, ConfigDelta'],
     'exhaustive exploration of operation sequences with state snapshots',
     'Complete over the universe and the listed operations.')

prop('C07', 'Deltas are empty for equal configs, minimal and use allowed ops',
     'A delta is empty, and false, exactly when its two configs are equal.  '
     'Otherwise it contains only operations allowed by the options, touches '
     'only nodes that differ, and with diff type replace it uses replace no '
     'deeper than the replace depth.',
     ['inputs', 'configurations'],
     'all pairs of configs and option combinations',
     SMALL + '  Minimality and operation discipline hold for every pair.',
     ['netconf.py', 'config.py'],
     [('NetconfCalculator.node_sub', 'netconf.py'),
      ('ConfigDelta.__bool__', 'config.py')],
     ['ConfigDelta.nc', 'bool(delta)'],
     'exhaustive pairwise exploration with structural monitors on each delta',
     'Complete over the universe.')

prop('C08', 'Filtering a config keeps exactly the selected data',
     'Filtering a config by xpath gives the selected nodes with their '
     'ancestors, list keys and subtrees, and nothing else; the result is a '
     'valid config contained in the original.',
     ['inputs'],
     'all configs x all xpaths that select each subset of nodes',
     'Tests filter one config with a few xpaths.',
     ['config.py'],
     [('Config.filter', 'config.py')],
     ['Config.filter()', 'Config.xpath()'],
     'exhaustive enumeration of configs and xpaths against a set oracle',
     'Complete over the universe and the enumerated xpaths.')

prop('C09', 'Every node maps to its path and schema node and back',
     'For every data node the computed xpath selects exactly that node and '
     'no other, its schema node is the schema definition of that very node, '
     'and tag conversions between prefix, name and namespace notation are '
     'inverse to each other.  Answers about defaults in use agree with the '
     'schema.',
     ['inputs'],
     'all nodes of all configs and of the schema, all tag notations',
     'Tests convert a few tags and paths.',
     ['manager.py', 'composer.py', 'config.py'],
     [('ModelDevice.get_schema_node / convert_tag / get_xpath', 'manager.py'),
      ('Composer.get_xpath', 'composer.py')],
     ['ModelDevice methods'],
     'exhaustive enumeration of nodes and notations',
     'Complete over the universe.')

prop('C10', 'Deltas and predictions do not depend on how configs are written',
     'Two writings of one config (other prefixes or default namespaces, other '
     'order of system-ordered nodes, other layout) give deltas with the same '
     'effect on a server and the same predictions.  Identityref and '
     'instance-identifier values are resolved through the namespaces in '
     'scope, not compared as text.',
     ['inputs'],
     'all pairs of configs, with either side in any of the enumerated '
     'writings',
     'Tests use one writing per config.',
     ['ref.py', 'calculator.py', 'netconf.py'],
     [('IdentityRef / InstanceIdentifier', 'ref.py'),
      ('_merge_text / _same_text', 'calculator.py')],
     ['ConfigDelta.nc', 'Config + delta'],
     'exhaustive exploration of config pairs times writings on the reference '
     'server',
     'Complete over the universe and writings; three known findings about '
     'values written with different prefixes are pinned.')

prop('C11', 'Randomised deltas are reproducible permutations of one level',
     'With a random depth, a delta is the plain delta with siblings permuted '
     'at that level and nowhere else, with list keys staying in front; the '
     'same seed always gives the same order, and a seed is generated when '
     'none is given.  Without user-ordered nodes the effect on a server is '
     'that of the plain delta.',
     ['inputs', 'configurations'],
     'all pairs of configs, depths and seeds; all argument combinations',
     'Tests check one depth and seed.',
     ['config.py'],
     [('ConfigDelta.reorder', 'config.py'),
      ('ConfigDelta.random_seed', 'config.py')],
     ['ConfigDelta(random_depth=, random_seed=)'],
     'exhaustive exploration of config pairs, depths and seeds on the '
     'reference server',
     'Complete over the universe, depths 0-3 and two seeds.')

RC = 'runningconfig.py'
prop('C12', 'A running-config diff is a faithful patch',
     'The diff of two running configs is empty exactly when they are the same '
     'config (orderless commands compared without their order).  Otherwise '
     'every line marked - is in the first config and every line marked + in '
     'the second one, unmarked lines are in both, each below its own parents, '
     'and applying the diff to the first config gives the second one.',
     ['inputs'],
     'all pairs of configs built from flat, repeated, nested and orderless '
     'commands',
     'Tests compare about forty recorded pairs.',
     [RC],
     [('ListDiff', RC), ('RunningConfigDiff.get_diff', RC)],
     ['str(RunningConfigDiff)', 'bool(RunningConfigDiff)',
      'RunningConfigDiff.diff'],
     'exhaustive pairwise exploration of running configs, each diff applied '
     'as a patch by an independent interpreter',
     'Complete over the enumerated universe (56 thousand pairs quick).')

prop('C13', 'The CLI of a running-config diff converts the device',
     'The CLI computed from two running configs, entered on a device that '
     'runs the first one, is accepted and leaves the second one, and the '
     'reverse CLI leads back.  This includes commands whose no form is shown '
     'by default, commands that overwrite their previous value, commands '
     'that are removed by a short no form, sections, commands that are '
     'prefixes of others, and lines that only move.',
     ['inputs', 'histories'],
     'all pairs of configs over a device model with plain, default-on, '
     'single-valued and sectioned commands',
     'Tests compare recorded CLI text; no test enters the CLI anywhere.',
     [RC],
     [('RunningConfigDiff.get_cli', RC), ('handle_duplicate', RC)],
     ['RunningConfigDiff.cli', 'RunningConfigDiff.cli_reverse'],
     'exhaustive pairwise exploration, each CLI executed on an explicit-state '
     'model of a device CLI',
     'Complete over the universe (91 thousand pairs, both directions).  The '
     'kinds of commands of the device model are listed at the top of '
     'mc/checks/c13.py.  One known finding.')

prop('C14', 'Running-config diffs do not depend on the writing',
     'The diff of two running configs depends on what is configured only: '
     'not on comments, blank lines, trailing spaces, headers, line ends, '
     'the amount of indentation, or the order in which a device prints '
     'commands documented as orderless.  The order of all other commands '
     'does count.',
     ['inputs'],
     'all permutations of each documented orderless family, all writings of '
     'each config',
     'Tests contain one permutation of some of the families.',
     [RC],
     [('RunningConfigDiff.handle_orderless, ORDERLESS_COMMANDS', RC),
      ('RunningConfigDiff.running2list', RC)],
     ['RunningConfigDiff()'],
     'exhaustive enumeration of permutations and writings',
     'Complete over the families listed in mc/checks/c14.py, and commands that '
     'look like them at all levels.')

prop('C15', 'A model diff reports exactly what changed in a schema',
     'Comparing two versions of a model reports every schema node that was '
     'added, deleted or modified, as what it is and at its place, for all '
     'kinds of nodes including rpcs, notifications and nodes without '
     'children, and nothing else.  It is empty exactly for equal schemas.  '
     'The added, deleted and modified views contain exactly the nodes of '
     'that kind with their ancestors.',
     ['inputs'],
     'all pairs of versions of a module built from independent alternatives '
     'per kind of schema node',
     'Tests diff two pairs of models.',
     ['model.py'],
     [('ModelDiff.compare_nodes', 'model.py'),
      ('ModelDiff.trim', 'model.py')],
     ['ModelDiff.tree', 'ModelDiff.added/deleted/modified', 'str(ModelDiff)'],
     'exhaustive pairwise exploration of schema versions against a '
     'structural oracle',
     'Complete over the alternatives in mc/checks/c15.py, compiled by the '
     'real compiler.')

prop('C16', 'Compiled models depend on the YANG files only',
     'What a module compiles to is a function of the YANG files: the same '
     'after any history of other compilations, from the cache or fresh, in a '
     'new process, with any hash seed and any order of the directory '
     'listing.  Identity values, imported prefixes and augmentations of '
     'the modules that it imports or that import it are complete in each '
     'case.',
     ['histories', 'configurations', 'inputs'],
     'all sequences of compile operations (with and without cache, with a '
     'new compiler, with changed listing order) up to a depth, in processes '
     'with different hash seeds',
     'Tests compile each model once in one process.',
     ['model.py'],
     [('ModelCompiler.compile', 'model.py'),
      ('ModelCompiler.get_dependencies', 'model.py')],
     ['ModelCompiler.compile', 'ModelDevice.load_model'],
     'exhaustive enumeration of operation histories, each result compared '
     'with the compilation in a fresh state',
     'Complete to depth 3 (quick) over five module sets.')

prop('C17', 'Scanning models is complete in every thread schedule',
     'Scanning the models of a device ends in every schedule of its download '
     'and parser threads, without a lost module, a module fetched twice or '
     'half a dependency, and with the same files and dependency information '
     'in each schedule; modules that the device refuses, cannot deliver or '
     'delivers broken do not hang or spoil the scan.',
     ['schedules', 'fault_sequences'],
     'all interleavings of the real threads up to a preemption bound, for '
     'devices with shared, chained, refused and broken modules',
     'Tests run one schedule with one well-behaved device.',
     ['model.py', 'manager.py'],
     [('DownloadWorker, ContextWorker', 'model.py'),
      ('ModelDownloader.download_all / download', 'model.py'),
      ('CompilerContext.load_context / update_dependencies', 'model.py')],
     ['ModelDevice.scan_models', 'ModelDownloader.download_all',
      'CompilerContext.load_context'],
     'stateless model checking of the real threads under a controlled '
     'scheduler, preemption-bounded and exhaustive',
     'All schedules with up to 1 or 2 preemptions at lines that touch shared '
     'state (43 thousand schedules quick).')

prop('C18', 'A folder of models survives crashes and failures',
     'Whatever interrupts a scan of models (the process dies before or in the '
     'middle of any file operation, the disk is full, the connection is lost '
     'or a request times out) and whatever the folder held before, the next '
     'undisturbed scan of the device ends with exactly the files and '
     'compiled models that a scan into an empty folder gives.  A complete '
     'folder is used again without another download, and nothing outside the '
     'folder is touched.',
     ['crash_points', 'fault_sequences', 'histories'],
     'all file operations and requests of a scan as crash, torn-write, '
     'no-space and lost-connection points; all previous contents of the '
     'folder; two devices sharing it; all scan options',
     'No test interrupts a scan.',
     ['manager.py', 'model.py'],
     [('ModelDevice.scan_models', 'manager.py'),
      ('ModelDownloader.need_download', 'model.py'),
      ('ModelDownloader.download_all', 'model.py')],
     ['ModelDevice.scan_models', 'ModelDownloader.download_all'],
     'exhaustive fault injection: every file operation (LD_PRELOAD shim) and '
     'every request of the real scan is a fault point, recovery is compared '
     'with an undisturbed scan',
     'Complete for one fault (quick) or two successive faults (thorough) per '
     'history.  Process crashes only: what was written before is on disk.')

prop('C19', 'A session sends exactly what was asked for',
     'An edit sent to a device arrives with exactly its content, target and '
     'options; after sending a delta the device holds the destination '
     'config.  A get or get-config for models requests exactly the data '
     'roots of those models, no more and no less, in their namespaces.  When '
     'no target is given, it is chosen from the capabilities of the device.',
     ['inputs', 'configurations', 'histories'],
     'all pairs of configs sent end to end; all subsets of models as filters; '
     'all targets, options and capability sets; all forms of edits',
     'Tests replace the session by canned replies and never look at what was '
     'sent.',
     ['manager.py', '__init__.py', 'config.py'],
     [('ModelDevice.execute', 'manager.py'),
      ('request and _wrap of EditConfig', '__init__.py')],
     ['ModelDevice.get', 'ModelDevice.get_config', 'ModelDevice.edit_config',
      'ModelDevice.take_notification'],
     'explicit-state exploration of client and reference server composed '
     'over the real ncclient request path',
     'Complete over the enumerated configs and arguments.')

prop('C20', 'Config extracted from a reply is exactly its configuration',
     'Extracting the config from a get reply gives the configuration in it '
     'and nothing else: state data, and obsolete or deprecated nodes as '
     'documented, are gone, all config nodes are there, and it equals the '
     'config of a get-config reply of the same device.  In the reply and in '
     'notifications each namespace has one prefix of its own, and it '
     'addresses the nodes of that namespace by xpath.',
     ['inputs'],
     'all data trees with and without state below, beside and above config; '
     'all assignments of prefixes to namespaces in the reply',
     'Tests extract from three recorded replies.',
     ['manager.py', '__init__.py', 'config.py'],
     [('ModelDevice.extract_config / remove_read_only', 'manager.py'),
      ('ModelDevice._get_ns', 'manager.py')],
     ['ModelDevice.extract_config', 'RPCReply.ns', 'RPCReply.xpath'],
     'exhaustive enumeration of replies against an independent stripping of '
     'the abstract data tree',
     'Complete over the enumerated replies.')

prop('C21', 'Answers depend on loaded models, not on history',
     'What a device answers (schema nodes, configs, deltas, defaults, '
     'namespaces, roots, tags) depends on the models that were loaded and '
     'the folder that was scanned, each in its last version, and not on the '
     'order of loading, on earlier versions, on earlier questions, or on '
     'whether a model came from a folder or from a file.',
     ['histories'],
     'all sequences of scanning, loading by name, loading by file and asking, '
     'up to a depth',
     'Tests load models once, in one order.',
     ['manager.py', 'model.py'],
     [('ModelDevice.load_model / scan_models', 'manager.py'),
      ('ModelDevice.namespaces, roots, get_schema_node', 'manager.py')],
     ['ModelDevice.load_model', 'ModelDevice.scan_models',
      'ModelDevice.get_schema_node', 'Config'],
     'explicit-state exploration of operation histories, each answer '
     'compared with a fresh device in the same abstract state',
     'Complete to depth 5 (quick).')

prop('C22', 'All models a device offers are found',
     'The models that a device offers are found by netconf-monitoring, '
     'yang-library or its capabilities, whichever it supports, whatever the '
     'others answer (errors, warnings, nothing), for all names a module may '
     'have; exactly those are downloaded.',
     ['inputs', 'fault_sequences', 'configurations'],
     'all combinations of the three sources, their answers and faults, and '
     'forms of names and capabilities',
     'Tests use one recorded capability list.',
     ['model.py', 'manager.py'],
     [('ModelDevice.models_loadable', 'manager.py'),
      ('ModelDownloader.__init__', 'model.py')],
     ['ModelDevice.scan_models', 'ModelDownloader'],
     'exhaustive enumeration of device behaviours over the simulated session',
     'Complete over the enumerated names, sources and faults.')

prop('C23', 'A compiled model is the schema that its YANG files define',
     'Compiling a module gives every schema node it defines or that other '
     'modules add to it, and no other, in its namespace and below its parent, '
     'with the kind, access (read-write, read-only, write), keys, mandatory, '
     'presence, ordered-by, status, defaults (its own or those of its type), '
     'type, values and features that YANG gives it, wherever it is written: '
     'in submodules, groupings of any module, refined, augmented by any '
     'module, deviated, in rpcs, actions or notifications.  The text of the '
     'model shows each of its nodes once, as what it is.',
     ['inputs', 'programs'],
     'all combinations of about 170 node definitions, 25 places and 10 '
     'wrappers (nested), and of refine and deviation statements',
     'Tests compile a few real models and look at a few nodes.',
     ['model.py'],
     [('ModelCompiler.compile / depict_a_schema_node', 'model.py'),
      ('ModelCompiler.set_access / set_leaf_datatype_value', 'model.py'),
      ('Model.emit_tree', 'model.py')],
     ['ModelCompiler.compile', 'Model.tree', 'Model.roots', 'str(Model)'],
     'exhaustive enumeration of YANG programs from a grammar, each compiled '
     'by the real compiler and compared with the schema constructed along '
     'with it',
     'Complete over the grammar to nesting depth 2 (quick; 3 thorough).  '
     'Parsing of YANG is that of pyang.')

prop('C24', 'Configs of two devices mix only if their schemas agree',
     'Computing a delta between, adding, or subtracting configs of two '
     'devices gives the same result as if both came from one device when the '
     'devices agree on every model that the configs use: both have loaded it, '
     'with the same schema nodes, prefix and namespace.  When they differ in '
     'any of these for any used model, it is refused with an error; models '
     'the configs do not use, and mere differences in writing, do not matter.',
     ['inputs', 'configurations'],
     'all pairs of devices over the variants of three modules and the sets of '
     'loaded models, all pairs of configs and all operations',
     'Tests have one device or two identical ones.',
     ['config.py', 'model.py'],
     [('ConfigCompatibility', 'config.py'),
      ('Config.__add__ / __sub__, ConfigDelta.__init__', 'config.py'),
      ('ModelDiff.__bool__', 'model.py')],
     ['Config', 'ConfigDelta', 'ConfigCompatibility'],
     'exhaustive enumeration of pairs of device variants and configs, '
     'compared with the verdict computed from the variants and with the '
     'results on one device',
     'Complete over the enumerated variants.')

NOT_APPLICABLE = []
