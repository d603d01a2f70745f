"""The properties: single source of properties.jsonl and MANIFEST.json (run tools/gen_manifest.py)."""
L = "sdk/python/lib/pulumi/"


def at(f):
    return f[1:] if f.startswith("/") else L + f


def P(id, title, statement, over, qtext, why, files, mech, note=None, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                files=[at(f) for f in files], mech=[(n, at(w)) for n, w in mech], note=note, observe=observe)


PROPS = [
    P("P01", "Derived outputs keep secrecy, unknownness, dependencies and failures",
      "A value derived from an output by a callback is secret if the source or anything the callback returned is secret, "
      "is unknown if the source or the callback's result is (or contains an) unknown, depends on every resource its source "
      "or the callback's result depends on, and fails if its source, callback or returned awaitable fails. "
      "The callback runs exactly once with the source's resolved value when that is fully known (never during a preview "
      "with an unknown value unless asked to run with unknowns), and every derived output settles whatever the order in "
      "which its parts complete.",
      ["inputs", "schedules", "configurations"],
      "every source value / secrecy / knownness / dependency set, every kind of callback result, preview or update, every "
      "completion order of the outstanding futures",
      "unit tests apply a few hand-picked callbacks to already resolved outputs; they sample neither the combinations of "
      "flags nor the completion orders",
      ["output.py"], [("apply", "output.py:Output.apply"), ("item and attribute access", "output.py:Output.__getattr__")]),
    P("P02", "Combining outputs loses no secrecy, unknownness, dependency or failure",
      "Combining values (all of several inputs, lifting a nested input, concatenating, marking secret or not secret) gives "
      "exactly the nested plain value, in order and under the same keys, once all parts resolve. "
      "The combination is secret if any part is, unknown in a preview if any part is, depends on every resource any part "
      "depends on, and fails if any part fails. "
      "Marking secret or non-secret changes secrecy only.",
      ["inputs", "schedules", "configurations"],
      "every nesting of plain values, awaitables, outputs, lists, dicts and input classes within the bounds, every "
      "secrecy/knownness of each part and every completion order",
      "tests combine a handful of fixed trees of already resolved outputs",
      ["output.py", "_types.py"],
      [("all / from_input", "output.py:Output.all, Output.from_input"), ("concat / secret / unsecret", "output.py:Output.concat, Output.secret, Output.unsecret"),
       ("gathering of dicts", "output.py:_gather_from_dict")]),
    P("P03", "Serialized inputs never expose secrets or unknowns, nor lose dependencies",
      "Serializing resource inputs for the engine yields the same value tree, with every secret part wrapped as secret and "
      "every unknown part replaced by the unknown marker whenever the engine supports it, resources as references (or "
      "their id / urn for engines that do not support references), assets and archives under their own signatures, and "
      "values a request cannot carry rejected. "
      "Per property, every resource the value depends on is reported, for any nesting and completion order and for "
      "concurrent serializations, and serializing never modifies the inputs. "
      "For remote components the values keep their secrecy and dependencies as output values.",
      ["inputs", "schedules", "configurations"],
      "every input tree within the bounds x engine feature set x completion order",
      "tests serialize fixed trees against one feature set at a time with resolved futures",
      ["runtime/rpc.py", "runtime/settings.py"],
      [("serialize", "runtime/rpc.py:serialize_properties, serialize_property"), ("feature probes", "runtime/settings.py:monitor_supports_feature")]),
    P("P04", "Values from the engine are decoded faithfully and keep their secrecy",
      "Decoding a value from the engine restores exactly the value that was sent: numbers, strings, lists, objects, "
      "assets, archives, resource references to live resources, and unknowns; internal keys are dropped, malformed "
      "special objects are rejected. "
      "A secret nested anywhere in a decoded list, object or output value marks the result secret and never leaves a raw "
      "secret wrapper behind, and whatever the program sends it gets back unchanged.",
      ["inputs", "configurations"],
      "every wire tree within the bounds, preview or update, registered and unregistered resource types; every input tree "
      "for the round trip",
      "tests decode fixed trees; secrecy bubbling depends on where in an arbitrary tree a secret sits",
      ["runtime/rpc.py"],
      [("deserialize", "runtime/rpc.py:deserialize_properties, deserialize_property, deserialize_resource"),
       ("secret wrapping", "runtime/rpc.py:wrap_rpc_secret, is_rpc_secret")]),
    P("P05", "Resource outputs settle to what the engine answered, with its secrecy",
      "Once the engine answers a registration, read or lookup, every declared output of the resource settles to the value "
      "in the answer, or, when the answer leaves it out, to the resource's own input (only in a preview does a missing "
      "output of a custom resource become unknown). "
      "Outputs are unknown exactly if the value contains an unknown, secret if the answer (or the input standing in "
      "for it) is secret, the id is known exactly if it is not empty, and each output depends on its resource and on the "
      "resources the engine reports for the property.",
      ["inputs", "configurations", "histories"],
      "every combination of input kind and response kind for two properties, of each kind of operation, in previews and "
      "updates",
      "tests use a mock engine that always answers completely and in one form",
      ["runtime/rpc.py", "runtime/resource.py"],
      [("resolving", "runtime/rpc.py:resolve_outputs, resolve_properties, transfer_properties"),
       ("operations", "runtime/resource.py:register_resource, read_resource, get_resource")]),
    P("P06", "A failed resource operation fails all its outputs and the program",
      "Whatever step of a resource operation fails (an input, dependency, parent, provider or alias that fails, an "
      "unserializable value, an engine error, a response that cannot be processed), every output of that resource, its "
      "urn and its id fail rather than hang or resolve, everything depending on them fails or is never sent, and the "
      "program as a whole fails. "
      "No engine request is sent for a resource whose inputs failed.",
      ["fault_sequences", "schedules", "configurations"],
      "every single fault in an operation (registration of custom, component and remote resources, read, lookup), every "
      "completion order",
      "tests cover an engine error and a few bad inputs; none checks every output in every fault position",
      ["runtime/resource.py", "runtime/rpc.py", "runtime/rpc_manager.py"],
      [("operations", "runtime/resource.py:register_resource, read_resource, get_resource"),
       ("failing the outputs", "runtime/rpc.py:resolve_outputs_due_to_exception"),
       ("error accounting", "runtime/rpc_manager.py:RPCManager.do_rpc")]),
    P("P07", "The engine is told exactly what the program asked for",
      "The request for a resource carries its type, name, parent, custom/remote kind, inputs under their wire names, and "
      "every option exactly as the program gave it: protection, deletion and retention flags, ignored, replaced-on and "
      "secret property names (translated like the properties), version, plugin server, import id, timeouts, aliases, "
      "provider and provider maps, dependencies overall and per property. "
      "Unset options are sent as unset, reads carry the id to read, and component outputs are reported once under the "
      "component's urn.",
      ["inputs", "configurations", "programs"],
      "every form of every option, in groups, for every kind of operation",
      "tests set one option at a time with one value, mostly for one kind of resource",
      ["runtime/resource.py", "resource.py"],
      [("building requests", "runtime/resource.py:register_resource, read_resource, register_resource_outputs, prepare_resource"),
       ("provider maps", "runtime/resource.py:convert_providers")]),
    P("P08", "A program ends successfully only when all it started has finished well",
      "A program's run ends successfully only after every resource operation, invoke, component-output report and callback "
      "it started (directly or from within other callbacks, at any depth) has completed, and the stack's exports have "
      "been reported. "
      "If any of them fails, at any time and in any order, or the program itself raises, the run fails; it never hangs.",
      ["schedules", "fault_sequences", "programs"],
      "all completion orders and single failures of programs with up to three operations and nested callbacks",
      "tests run each program under one schedule; whether a late failure is noticed depends on the order",
      ["runtime/stack.py", "runtime/rpc_manager.py", "output.py"],
      [("draining", "runtime/stack.py:run_pulumi_func, wait_for_rpcs, run_in_stack"), ("tracking", "runtime/rpc_manager.py:RPCManager")]),
    P("P09", "Dependencies on components expand to their contents and never deadlock",
      "A resource that depends on a local component (explicitly or through a property) is reported to depend on exactly "
      "the custom and remote-component resources reachable through nested local components, never on a local component "
      "itself nor on children of custom or remote resources; other resources stand for themselves. "
      "Resources that depend on their own parent component or on siblings that depend on them are registered without "
      "deadlock, including when children are added while the dependency is being resolved.",
      ["inputs", "schedules", "histories"],
      "every tree of up to five resources of the three kinds, both ways of depending, sibling/parent cycles, all "
      "completion orders",
      "tests check a few fixed trees",
      ["runtime/resource.py", "runtime/resource_cycle_breaker.py", "runtime/rpc.py"],
      [("expansion", "runtime/resource.py:_expand_dependencies, _add_dependency"),
       ("cycle breaking", "runtime/resource_cycle_breaker.py:declare_dependency")]),
    P("P10", "Component providers return exactly what the component program made",
      "A component provider hands the program the inputs and options of a Construct or Call exactly as the engine sent "
      "them, with their secrecy, unknowns and dependencies per property, and answers with exactly the component's urn and "
      "state or the call's result and failures, keeping secrecy, unknowns and per-property dependencies. "
      "The answer is given only once every resource operation the request started, directly or in an apply, has finished, and an exception or a "
      "failed operation fails the request; requests for one provider do not disturb each other.",
      ["inputs", "configurations", "schedules", "fault_sequences"],
      "every form of inputs, options and results within the bounds, every single failure and completion order",
      "tests decode a handful of fixed requests and never run a whole request",
      ["provider/server.py", "provider/construct_result.py", "provider/call_result.py", "runtime/stack.py"],
      [("requests", "provider/server.py:ProviderServicer.Construct, ProviderServicer.Call"),
       ("decoding", "provider/server.py:ProviderServicer._construct_options, ProviderServicer._create_output")]),
    P("P11", "Children inherit providers, protection and transformations from parents",
      "A resource uses its explicit provider if that provider is of its package, else the provider of its package among its own "
      "providers, else the nearest ancestor's provider for that package; no other provider is ever sent. "
      "Protection is inherited unless the resource says otherwise. "
      "Transformations apply to a resource and all its descendants, own first, then those of each ancestor outwards and "
      "the stack's last, each seeing the result of the previous one; what they return is what is registered.",
      ["inputs", "programs"],
      "every chain of up to three resources with every form of provider options, protection and transformations",
      "tests check a few chains, mostly of one package",
      ["resource.py", "runtime/resource.py"],
      [("inheritance", "resource.py:Resource.__init__, ProviderResource"), ("provider lookup", "resource.py:Resource.get_provider"),
       ("transformations", "resource.py:Resource.__init__")]),
    P("P12", "Merging options keeps everything and changes neither original",
      "Merging resource or invoke options gives, for each attribute, the last value that was set, and for collections "
      "(providers, dependencies, ignored changes, aliases, transformations, ...) all items of both in order, whatever form "
      "they were given in. "
      "Unset options and missing bags are ignored, the originals are never changed, static, instance and chained merges "
      "agree, and a resource given merged options is registered as if given the merged values directly.",
      ["inputs", "programs"],
      "every combination of set and unset attributes and collection forms in two or three bags",
      "tests merge a few attribute pairs, never chain merges",
      ["resource.py", "invoke.py", "output.py"],
      [("merge", "resource.py:ResourceOptions.merge, _collapse_providers, _merge_lists"), ("merge", "invoke.py:InvokeOptions.merge"),
       ("merging dependencies", "output.py:_map_input, _map2_input")]),
    P("P13", "URNs and aliases name exactly what the resource was called before",
      "The URN computed for a resource is `urn:pulumi:stack::project::type::name`, with the type chain of its parent's URN in "
      "front of its type (and the stack and project of that URN) when it has a parent other than the stack. "
      "A resource is registered with the URN each of its aliases describes (given as a URN or as any of name, type, parent, "
      "project and stack, everything else as the resource has it now) and, for each alias of its parent, with the URNs the "
      "resource and each of its aliases would have had under that parent, the parent's old name replacing the new one at "
      "the start of the resource's name; each once, plain or as outputs, and no others.",
      ["inputs", "programs", "schedules"],
      "every form of alias and parent and every name within the bounds, chains of up to three resources",
      "tests register one fixed tree in an integration program that needs a language host",
      ["resource.py", "urn.py", "runtime/resource.py"],
      [("URNs", "resource.py:create_urn"), ("aliases", "resource.py:collapse_alias_to_urn, all_aliases, inherited_child_alias"),
       ("parsing", "urn.py:_parse_urn")]),
    P("P14", "Provider functions and methods are called as written and answered as returned",
      "`invoke` sends the function's token and its serialized arguments with the explicit provider, else the parent's provider "
      "for the function's package, and the given version and download URL, and returns exactly that call's result (typed if "
      "asked), or raises the function's failure, without failing the program or changing the options; invokes may overlap. "
      "`call` sends each argument with its secrecy, unknowns and dependencies and the receiver's provider, version and URL; its "
      "output is secret or unknown iff a returned property is, depends on everything the result depends on, and fails iff "
      "the call, its arguments or its provider fail.",
      ["inputs", "configurations", "schedules", "fault_sequences"],
      "every kind of argument, option, result and failure within the bounds, every completion order",
      "tests invoke a few fixed functions with fixed responses; methods are called in one scenario",
      ["runtime/invoke.py", "invoke.py", "runtime/rpc.py", "runtime/sync_await.py"],
      [("invoke", "runtime/invoke.py:invoke"), ("call", "runtime/invoke.py:call"), ("parent's provider", "resource.py:Resource.get_provider"),
       ("synchronous waiting", "runtime/sync_await.py:_sync_await")]),
    P("P15", "Stack exports register exactly the exported values",
      "However a program ends, the engine is told the stack's outputs exactly once: every exported name with the last value "
      "exported under it, and nothing else. Awaitables and outputs at any depth appear as their values (marked secret if they "
      "are, unknown if not yet known), iterables as lists, objects and resources as dictionaries of their public attributes "
      "(with an `@isPulumiResource` mark in previews), numbers and string enums as their values; an object is left out only "
      "within itself (a resource appears there as its urn), not when reached along two paths. A component's "
      "registered outputs reach the engine unchanged, under its urn.",
      ["inputs", "configurations", "schedules"],
      "every value within the bounds, every sharing and cycle, every completion order, preview and update",
      "tests export a few fixed values and one self-reference",
      ["runtime/stack.py", "runtime/resource.py", "resource.py"],
      [("flattening", "runtime/stack.py:massage"), ("primitive values", "runtime/stack.py:is_primitive"),
       ("stack", "runtime/stack.py:Stack.__init__"), ("registration", "runtime/resource.py:register_resource_outputs")]),
    P("P16", "Configuration getters return the configured value, typed and secret as asked",
      "A configuration bag sees exactly the variables of its own name (the project's by default). A getter returns the "
      "variable's value converted to the asked type; the default (or None) exactly when it is unset, so that `0`, `false` and "
      "the empty text count as set; `require` getters report a missing variable and all report an ill-typed one, naming it; secret "
      "getters answer with the same value in a secret output. A value set by the engine wins over a PULUMI_CONFIG_<KEY> "
      "variable, which wins over PULUMI_CONFIG; the last assignment counts, replacing the configuration forgets the rest, and "
      "concurrent programs each see their own.",
      ["inputs", "configurations", "histories"],
      "every value, key and default within the bounds, every combination of sources, every short history of assignments",
      "tests have no coverage of configuration beyond a few fixed values in language-host programs",
      ["config.py", "runtime/config.py"],
      [("getters", "config.py:Config"), ("sources", "runtime/config.py:get_config"), ("variable names", "runtime/config.py:get_config_env_key")]),
    P("P17", "Typed properties keep their engine names and declared types both ways",
      "For a resource class that declares the names and types of its properties, inputs reach the engine under the engine's names at "
      "every level where the declared type is a nested input type, whether they are given as typed objects or as dictionaries with "
      "Python or engine names, while the keys of maps and of untyped values stay as they are; enums are sent as their values. "
      "Answers become the declared types at every level (nested output types, enums, integers, lists and maps of these) under "
      "their Python names, secret iff a part is secret and unknown iff a part is unknown; properties the engine leaves out get the "
      "input's value, typed the same way. Typed objects give back what was set and compare equal iff all their properties do.",
      ["inputs", "configurations"],
      "every property type, spelling, nesting, secrecy and knownness within the bounds, for each way of declaring the classes",
      "tests translate a few fixed trees",
      ["_types.py", "runtime/rpc.py"],
      [("names and types", "_types.py:input_type, output_type, getter, get, set"), ("inputs", "runtime/rpc.py:serialize_property"),
       ("answers", "runtime/rpc.py:translate_output_properties, resolve_outputs")]),
    P("P18", "A stack reference reads exactly the named outputs of the stack it names",
      "A stack reference reads exactly one stack: the one named by `stack_name`, else by its own name, with the options it was "
      "given, which it does not modify. `get_output` and `require_output` give the value of the named output; an output that "
      "is missing gives None or fails with a KeyError naming it. The result is secret iff that output is (older engines do not "
      "list secret outputs: iff any output is), unknown when the name or the stack's outputs are not yet known, depends on the "
      "reference and on what the name depends on, and fails when the name or the reference fails.",
      ["inputs", "configurations", "schedules"],
      "every set of outputs, every kind of name, preview and update, every completion order within the bounds",
      "tests read a few fixed outputs of one reference",
      ["stack_reference.py", "output.py", "runtime/resource.py"],
      [("lookups", "stack_reference.py:StackReference.get_output, require_output"), ("reading", "stack_reference.py:StackReference.__init__")]),
    P("P19", "The automation API runs exactly the CLI command that was asked for",
      "Every automation operation (up, preview, refresh, destroy; configuration, stack, plugin, import/export, history and output "
      "operations; creating and selecting stacks) runs exactly the CLI command that performs it, non-interactively, in the workspace's "
      "directory and with its environment, for the named stack; each option given reaches the CLI under its flag with its exact value "
      "(all elements of lists, in order) and options not given do not, and destructive commands are confirmed. Secret configuration "
      "values are marked so. `create_or_select` creates, and selects only what already exists. An inline program is served while its "
      "command runs and no longer; temporary files are removed, and the caller's environment and arguments are left alone.",
      ["inputs", "configurations", "fault_sequences"],
      "every operation, every pair of options (and all together) with symbolic values, names and keys, each failure of the CLI",
      "tests of the automation API need an installed CLI and a login and are not run; the unit tests check paths and versions",
      ["automation/_stack.py", "automation/_local_workspace.py", "automation/_cmd.py"],
      [("operations", "automation/_stack.py:Stack.up, preview, refresh, destroy, _parse_extra_args"),
       ("workspace operations", "automation/_local_workspace.py:LocalWorkspace"), ("running", "automation/_cmd.py:_run_pulumi_cmd")]),
    P("P20", "Automation results say what the CLI reported",
      "Everything the CLI reports is returned as it was reported: its output line by line and as a whole, stack and plugin listings, "
      "configuration values and outputs with their secrecy, exported state, update histories (also of updates in progress), and every "
      "engine event field by field; a field the CLI leaves out is None. Events written to the event log reach the callback in order, each exactly "
      "once and intact, however the log is written; watching the log ends with the command, also if it fails or writes no final event. A "
      "failing command raises the error class that names its cause, carrying what it printed. A CLI of another major version "
      "or older than the minimum is refused unless the check is switched off.",
      ["inputs", "schedules", "fault_sequences"],
      "every combination of optional fields with symbolic contents, every failure message in context, every way to cut the event log and "
      "to interleave its reader, every CLI version within the bounds",
      "tests decode a few fixed events and versions",
      ["automation/events.py", "automation/_stack.py", "automation/_local_workspace.py", "automation/_cmd.py", "automation/errors.py"],
      [("events", "automation/events.py:EngineEvent.from_json"), ("event log", "automation/_stack.py:_watch_logs"),
       ("histories and outputs", "automation/_stack.py:Stack.history, outputs, info"), ("errors", "automation/errors.py:create_command_error"),
       ("versions", "automation/_local_workspace.py:_parse_and_validate_pulumi_version")]),
    P("P21", "Project and stack settings survive saving and loading",
      "Settings that the automation API saves for a project or a stack are read back equal, whichever optional parts they have "
      "(run time and its options, description, templates, back ends, encryption settings, configuration of every kind, plain or "
      "secure). Files contain plain data under the CLI's names, and only what is set. An existing settings file of any supported "
      "extension (.yaml, .yml, .json) is the one read and overwritten, in its format; project and stacks do not disturb one another. "
      "Every valid file loads, whatever optional fields it has. Missing files are reported by name.",
      ["inputs", "configurations", "histories"],
      "every combination of optional parts with symbolic contents, every existing file, several saves in a row",
      "tests load two fixed fixtures",
      ["automation/_local_workspace.py", "automation/_project_settings.py", "automation/_stack_settings.py"],
      [("project settings", "automation/_local_workspace.py:LocalWorkspace.project_settings, save_project_settings"),
       ("stack settings", "automation/_local_workspace.py:LocalWorkspace.stack_settings, save_stack_settings"),
       ("contents", "automation/_project_settings.py:ProjectSettings, automation/_stack_settings.py:StackSettings")]),
    P("P22", "Dynamic resources are handled by the provider they were declared with",
      "Declaring a dynamic resource sends its inputs together with the provider it was given, unchanged by earlier declarations, and "
      "leaves the caller's properties alone. In the provider process, check, diff, create, read, update and delete each call exactly "
      "that provider's method once, with the values the engine sent (the provider itself not among them); changes and "
      "deletions of existing resources go to the provider they were created with. What the method returns reaches the engine complete and "
      "unchanged, and the provider is kept with the outputs; optional parts may be left out, a resource that is gone is reported gone, and an "
      "exception of the method is the request's failure.",
      ["inputs", "configurations", "fault_sequences"],
      "every method, every kind of property and shape of result with symbolic contents, known or unknown, each failure",
      "tests run dynamic providers only in integration tests that need the engine",
      ["dynamic/dynamic.py", "dynamic/__main__.py"],
      [("declaring", "dynamic/dynamic.py:Resource.__init__, serialize_provider"),
       ("serving", "dynamic/__main__.py:DynamicResourceProviderServicer")]),
    P("P23", "Inline programs run with their own settings, apart from each other",
      "Each run of an inline program sees exactly the project, stack, organization, preview flag, parallelism, configuration and secret keys "
      "of its request and reaches the engine at its addresses, from its first line to its last callback, whatever ran before on the same thread and whatever "
      "runs at the same time in others. Its resources and exports go to its own engine only. Every run is answered: with an error that says "
      "why, reported once, if anything of the program failed (also if it exits or is cancelled), and without one otherwise. Nothing it started "
      "is left running, however its tasks react to being cancelled, and later runs are not affected.",
      ["inputs", "schedules", "histories", "fault_sequences"],
      "every request, every way to end, two runs in a row or at the same time with every switch between them within the bounds",
      "tests of inline programs need an installed CLI and are not run",
      ["automation/_server.py", "runtime/settings.py", "runtime/config.py", "runtime/rpc_manager.py", "_utils.py"],
      [("runs", "automation/_server.py:LanguageServer.Run"), ("settings", "runtime/settings.py:reset_options, Settings"),
       ("configuration", "runtime/config.py:set_all_config"), ("operations under way", "runtime/rpc_manager.py:RPCManager")]),
    P("P24", "Every log message reaches the engine once, as it was logged",
      "Each message logged by a program reaches the engine exactly once with its text, severity, stream and ephemeral flag, and names the "
      "resource it is about once its URN is known; messages that are not about a resource are sent before the call returns, and all messages "
      "before a successful program ends. Without an engine, messages other than debug messages are printed to the standard error.",
      ["inputs", "schedules"],
      "every severity, text and option, with and without resources, in every order of completion within the bounds",
      "tests do not check log messages",
      ["log.py"], [("logging", "log.py:debug, info, warn, error")]),
    P("P25", "Under mocks, tests see what the mocks answer, and fail iff something did",
      "With mocks set, every component and custom resource declared or read is made by the mocks exactly once and every function call answered once, "
      "with the declared type, name, id, inputs or arguments; outputs, ids and results are what the mocks gave, secret inputs stay secret, "
      "and URNs consist of the project and stack given, the parents' types and the name. Mocks and program see the given project, stack and "
      "preview flag; messages reach the given logger at their level. A decorated test waits for everything it started, fails iff "
      "any of it failed, and leaves nothing behind for the next test.",
      ["inputs", "schedules", "configurations", "histories"],
      "every property kind and answer with symbolic contents, every failure, completion order and pair of tests within the bounds",
      "the tests of mocks use one fixed set of resources, run in a single thread",
      ["runtime/mocks.py", "runtime/sync_await.py", "_utils.py"],
      [("mocks", "runtime/mocks.py:MockMonitor, set_mocks"), ("tests", "runtime/mocks.py:test"), ("waiting", "runtime/sync_await.py:_sync_await")]),
    P("P26", "A resource reference is rebuilt by the newest compatible registered package",
      "A package or module version can be registered once (no version counts as every version), another registration of it is refused. "
      "A reference to a resource or provider becomes an object made, exactly once, by the registered package or module of that name which "
      "is the newest of those compatible with the version the reference asks for: the same major version and not older; any, when the "
      "reference or the registration names no version. It is made with the reference's name, type and URN. Without a compatible one the "
      "reference stays its id or URN.",
      ["inputs", "configurations", "histories"],
      "every sequence of up to three registrations with symbolic version numbers, and every version asked for",
      "tests register a single module without a version",
      ["runtime/rpc.py", "urn.py"],
      [("registration", "runtime/rpc.py:register_resource_package, register_resource_module"), ("choice", "runtime/rpc.py:get_resource_package, get_resource_module, check_version"),
       ("references", "runtime/rpc.py:deserialize_resource")]),
    P("P27", "Programs started by the CLI get its settings and report how they ended",
      "A program started by the Python language host sees the project, stack, organization, preview flag, parallelism, engine addresses, arguments, "
      "working directory, configuration and secret keys it was started with, and runs as the main module. The exit code is 0 iff the program "
      "and everything it started succeeded (or it exited with 0 itself); an exit code of its own stands; any other failure gives a "
      "failing exit code and exactly one error message with the reason, and the exit code 32 (1 for a RunError) tells the host that it was "
      "shown. The same goes for policy packs, with their settings from the environment and 1 as their failing exit code.",
      ["inputs", "schedules", "configurations"],
      "every option with symbolic texts, given or not, every kind of ending, in every order of completion within the bounds",
      "the launchers are not run by the unit tests, the tests of language hosts need the Go binaries",
      ["/sdk/python/cmd/pulumi-language-python-exec", "policy/__main__.py", "runtime/settings.py", "runtime/config.py", "runtime/stack.py", "metadata.py"],
      [("launcher", "/sdk/python/cmd/pulumi-language-python-exec"), ("policy packs", "policy/__main__.py:main"), ("running", "runtime/stack.py:run_in_stack")]),
    P("P28", "Structured provider settings are encoded as JSON under the provider's names",
      "runtime.to_json encodes any nesting of lists, maps and input classes (generated or plain) as the JSON of the same nesting, with fields of "
      "input classes under the names they declare, fields that are None left out, all other values (false, zero and empty ones too) and the "
      "keys of maps as they are; it changes nothing. A provider registered with such settings is sent that text, secret if any part is.",
      ["inputs"],
      "every nesting of up to three levels with symbolic leaves, as plain values, outputs, or with outputs inside",
      "tests encode seven fixed values",
      ["runtime/_json.py", "_types.py"], [("encoding", "runtime/_json.py:to_json"), ("names", "_types.py:input_type_to_dict")]),
    P("P29", "Engines are sent only what they say they can handle",
      "Values sent to the engine use secrets, resource references and output values only as far as that engine says it handles them, whatever the "
      "request: otherwise secrets are sent as their plain values and resources as their ids, and only calls and remote components are sent output "
      "values. An engine that does not know the question handles none; if the question fails otherwise, the operation that asked sends nothing and "
      "the program fails with that failure (a RunError if the engine is gone). Operations may ask while others do; a later program in the same "
      "process asks its own engine.",
      ["inputs", "schedules", "fault_sequences"],
      "every answer of the engine to each question, for six kinds of requests, overlapping or one after the other, with symbolic values",
      "tests use an engine that supports everything or nothing, and never one that fails to answer",
      ["runtime/settings.py", "runtime/rpc.py"], [("asking", "runtime/settings.py:monitor_supports_feature"), ("using", "runtime/rpc.py:serialize_property")]),
    P("P30", "Malformed declarations are refused and leave nothing behind",
      "A resource declared without a type or name or with one that is not text, with options that are no resource options, a parent or dependency "
      "that is no resource, timeouts that are none, a provider for another package or given to a provider, an id given to a component, a transformation that moves it, or inputs no request "
      "can carry, is refused with an error that fails the program unless the program handles it. Nothing of it is sent, and once handled all other "
      "resources (also those depending on its parent) are registered as if it had never been declared. Likewise refused: assets and archives of anything "
      "but text or assets, mixed Output.all, iterating over outputs, exports and stack transformations outside a stack, a second stack.",
      ["inputs", "schedules"],
      "every kind of mistake in every kind of resource, handled or not, with symbolic names and types, in the middle of a program",
      "tests try a few of the mistakes alone and never look at what is left behind",
      ["resource.py", "asset.py", "runtime/stack.py", "output.py"], [("declaring", "resource.py:Resource.__init__"), ("assets", "asset.py:AssetArchive.__init__")]),
]


def NA(id, title, statement, over, qtext, why, files, mech, reason):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason)


_GO = ("The code is Go. Its modules' dependencies are not in this sandbox (go build of pkg and sdk/go fails offline), so it can "
       "neither be compiled for replay nor be lowered to an IR here, and no symbolic executor for Go (goroutines, interfaces, "
       "maps, reflection) is installed: cbmc, kani and crosshair do not take it. Nothing was checked; a hand-written model of the "
       "Go code would not be the real code.")
NOT_APPLICABLE = [
    NA("P90", "The engine orders its steps by the dependencies and deletes safely",
       "Whatever the program's resources, the previous state and the failures of providers, the engine creates or updates a "
       "resource only after everything it depends on and deletes it only after everything that depends on it, never deletes a "
       "protected resource, and after a failure starts nothing that depends on what failed.",
       ["programs", "schedules", "fault_sequences", "histories"],
       "every dependency graph, previous snapshot, parallelism and set of failing providers",
       "lifecycle tests run fixed programs under one schedule",
       ["pkg/resource/deploy/step_generator.go", "pkg/resource/deploy/step_executor.go", "pkg/resource/deploy/deployment_executor.go"],
       [("ordering steps", "pkg/resource/deploy/step_generator.go"), ("executing them", "pkg/resource/deploy/step_executor.go")], _GO),
    NA("P91", "The state written during an update survives any crash",
       "At every point of an update the snapshot last written is well formed (dependencies and parents precede what refers to "
       "them), contains every resource that exists and an operation record for everything in progress, and a backend file is "
       "replaced wholly or not at all.",
       ["crash_points", "histories", "schedules"],
       "every interleaving of steps with a crash at every write",
       "tests check the snapshots of a few fixed sequences without crashes",
       ["pkg/backend/snapshot.go", "pkg/resource/deploy/snapshot.go", "pkg/backend/filestate/backend.go"],
       [("snapshot manager", "pkg/backend/snapshot.go"), ("integrity", "pkg/resource/deploy/snapshot.go")], _GO),
    NA("P92", "The Node.js, Go and .NET SDKs tell the engine the same as Python's",
       "A program written for the Node.js, Go or .NET SDK sends the engine the same requests (secrecy, dependencies, options) as "
       "the same program written in Python, and its outputs settle to the same values.",
       ["programs", "inputs"], "every program over the common resource model",
       "each SDK has its own tests of fixed programs",
       ["sdk/nodejs/runtime/resource.ts", "sdk/nodejs/output.ts", "sdk/go/pulumi/context.go", "sdk/dotnet/Pulumi/Deployment/Deployment.cs"],
       [("Node.js runtime", "sdk/nodejs/runtime/"), ("Go runtime", "sdk/go/pulumi/")],
       "The other SDKs cannot be built or run here (no node_modules, Go modules or .NET toolchain in the sandbox), so no counterexample "
       "could be replayed, and no symbolic executor for TypeScript, Go or C# with their event loops is installed. The Python side of "
       "the comparison is what P01-P25 decide."),
    NA("P93", "Provider code sent with a dynamic resource runs as it was written",
       "The provider object serialized with a dynamic resource, rebuilt by the plugin process, behaves as the original in every "
       "method, including what its code captures from the modules and functions around it.",
       ["programs", "inputs"], "every provider class and everything its methods capture",
       "tests pickle one or two classes",
       [L + "dynamic/dynamic.py", L + "dynamic/__main__.py"], [("serialization", L + "dynamic/dynamic.py:serialize_provider")],
       "What decides this is dill and CPython's C pickler walking live code objects, closures and module globals: the values are code, "
       "not data a solver has a theory for, and neither library is part of the repository. P22 decides everything around it (which "
       "provider is serialized when, that the same provider is used, what it is asked and what becomes of its answers)."),
    NA("P94", "No request between program and engine is lost or duplicated in transit",
       "Every request a program or a callback server sends or answers over gRPC arrives exactly once and intact, with messages of "
       "any size, until the channel is shut down.",
       ["schedules", "fault_sequences"], "every interleaving and connection failure",
       "tests use a loopback connection that does not fail",
       [L + "runtime/settings.py", L + "automation/_server.py", L + "provider/server.py"],
       [("channels", L + "runtime/settings.py:Settings"), ("servers", L + "provider/server.py:main")],
       "The transport is grpcio's C core, which is not in the repository and cannot be encoded from its binary; the SDK only passes "
       "it options. The checks replace it at the stubs: what is handed to a stub and how answers and errors are treated is decided by "
       "P03-P10, P14, P22-P25."),
]
