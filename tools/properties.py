#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                   mechanism=[dict(name=a, where=b) for a,b in mechanism], observe_at=observe, hook_needed=None)))

EL="src/IgniteElement.ts"; FA="src/IgniteElementFactory.ts"; CF="src/createComponentFactory.ts"
XS="src/adapters/XStateAdapter.ts"; RX="src/adapters/ReduxAdapter.ts"; MX="src/adapters/MobxAdapter.ts"
AD=[XS,RX,MX]; RR="src/renderers/jsx/renderer.ts"; ST="src/renderers/jsx/IgniteJsxRenderStrategy.ts"

p("C01","A connected element always shows its source's current state",
 "Whenever an operation that changed a source has returned, every connected element bound to that source displays exactly what its renderer produces for the source's current state. This holds for XState, Redux, MobX and custom adapters, for the built-in JSX and the lit renderer, for every state value (0, \"\", false and null included), and when the change was made from inside a render. Only an isolated element that was removed from the document before is exempt (its state has ended).",
 ["histories","schedules","inputs","configurations"],"all histories of create/connect/disconnect/move/change/send (re-entrant ones included), all state values, all source kinds and renderers",
 "Tests drive single short scripted sequences with one element, one source kind and truthy states; staleness needs a particular order of connects, removals and changes.",
 [EL,FA,*AD],[("subscription + synchronous render",f"{EL} subscribeToAdapter/renderTemplate"),("state refresh on (re)connect",f"{EL} connectedCallback")],["shadow DOM content after each step"],
 [("_currentState","state last delivered to the element",EL)])
p("C02","Elements outside the document do nothing, and catch up on return",
 "An element that is not in the document never runs its renderer, never forwards an event to its source, and keeps the content it last showed, however its source changes meanwhile; a `send` from its last render or a forced re-render is dropped with a console warning. When an element of a shared source is inserted again it shows the source's current state at once.",
 ["histories","schedules"],"all histories in which elements leave and re-enter the document, including removal by another element's render",
 "Tests remove an element once and look at one counter; they never interleave removals with changes, re-insertions and sends.",
 [EL,FA],[("active flag and unsubscribe on disconnect",f"{EL} disconnectedCallback/send/forceRender")],["renderer invocations","events reaching the source","shadow DOM content"])
p("C03","One state change renders each bound connected element exactly once",
 "A state change (one event sent, one dispatch, one MobX action however many fields it writes) made outside a render runs the renderer of every connected element bound to that source exactly once and of no other element. Inserting an element (other than from inside a render that a state change caused) renders it exactly once, and an event that leaves the state unchanged renders each element at most once.",
 ["histories","configurations"],"all histories of lifecycle steps and changes, all source kinds",
 "Tests assert call counts for single scripted sequences; leaked or doubled subscriptions only show after particular re-insertion histories.",
 [EL,FA,*AD],[("one subscription per element",f"{EL} subscribeToAdapter"),("one reaction/subscription per adapter",MX)],["renderer invocation counts per step"])
p("C04","Isolated elements never influence each other",
 "When the source is a machine, a slice or a factory, every element has its own state: each element starts in the initial state, and whatever is sent to, changed in, or done to one element (removal included) changes neither the state nor the display of any other element, and does not make it render.",
 ["histories","configurations"],"all histories over two or more isolated elements of one component, all isolated source kinds",
 "Tests compare two elements after one event; cross-talk through cached adapters, shared initial objects or tracked reactions needs longer interleavings.",
 [FA,*AD],[("adapter created per element",f"{FA} IsolatedIgniteComponent"),("per-adapter registry","createIsolatedFactory in each adapter")],["shadow DOM of every element after each step","renderer invocation counts","per-source event counters"])
p("C05","All elements of a shared source agree",
 "All connected elements bound to one shared source, across tags, registrations and separate igniteCore calls, display the same current state after every step, whoever caused the change (any element, a command, or the application).",
 ["histories","configurations"],"all histories over several elements and several registrations of one shared source",
 "Tests use two elements of one registration and one event.",
 [FA,*AD],[("shared adapter per factory",f"{FA} resolveSharedResources"),("fan-out to all listeners","notify in each adapter")],["shadow DOM of every element after each step"])
p("C06","A shared adapter is released exactly when its last element leaves",
 "While at least one element of a shared registration is in the document its adapter stays open and there is exactly one; when the last one leaves it is stopped exactly once and no subscription to the source remains, and with `cleanup: false` it is never stopped. The user's own source (actor, store, observable) is never stopped or torn down by the library.",
 ["histories","configurations"],"all connect/disconnect/move/create histories, cleanup on and off, several registrations over one source",
 "Tests disconnect one or two elements once; reference counts go wrong on moves, re-insertions, elements created but never inserted, and removal during notification.",
 [FA,EL,*AD],[("connected-element count",f"{FA} sharedInstanceCount"),("ownership flag",f"{XS} ownsActor")],["stop calls and open adapters per factory (custom adapter)","subscriptions on the user's source"],
 [("sharedInstanceCount","connected elements of the factory",FA)])
p("C07","A shared source can be used again after its last element left",
 "After the last element of a shared registration left the document (releasing the adapter), inserting that element again, inserting a new one, or inserting one created earlier works as the first time: it shows the current state, follows later changes, and its send, commands and facade values act on the live source.",
 ["histories"],"all histories that release the shared adapter any number of times and then use any element again",
 "Tests stop at the release; nothing re-inserts after it.",
 [FA,EL,*AD],[("re-resolution of the shared adapter on connect",f"{FA} SharedIgniteComponent.connectedCallback"),("fresh entry for a stopped adapter","createSharedFactory in each adapter")],["shadow DOM, events reaching the source, subscriptions after each step"])
p("C08","Removing an isolated element ends its state, once and for good",
 "When an isolated element leaves the document its adapter is stopped exactly once, a machine actor created for it is stopped (its invoked work is cleaned up once), and no subscription to its source remains. If it is inserted again it shows the state it ended with, and events sent to it are ignored.",
 ["histories"],"all histories of isolated elements, including repeated removal, re-insertion and moves",
 "Tests remove an element once and check a stop spy.",
 [EL,FA,*AD],[("stop on disconnect",f"{EL} disconnectedCallback"),("idempotent stop","stop() in each adapter")],["stop counts","invoked actor start/cleanup counts","subscriptions on the source","shadow DOM after re-insertion"])
p("C09","Events reach the source exactly once, unmodified",
 "An event sent from a connected element (the `send` given to the renderer, a `send` CustomEvent on the element or bubbling out of its content, or a command) reaches that element's own source exactly once, with the very value that was sent, and no other source. Events of disconnected or ended elements reach no source.",
 ["histories","inputs","configurations"],"all histories, all routes by which an event can be sent, all source kinds",
 "Tests send one event on a freshly connected element; duplicate listeners appear only after re-insertions and moves.",
 [EL,FA,CF],[("send listener management",f"{EL} connectedCallback/disconnectedCallback"),("detail unwrapping",f"{EL} send")],["events applied by each source per step","identity of the event object"])
p("C10","Facade values given to a render match the state it is given",
 "Outside of a re-entrant change, every value derived by the `states` callback that a renderer receives is the callback's result for the very state that render receives, for every element, source kind and history, and after every step the values last rendered match the current state.",
 ["histories","inputs"],"all histories, all states, all source kinds with a states callback",
 "Tests read a facade value once per scripted state.",
 [CF,*AD],[("live getters over the adapter snapshot",f"{CF} getLatestStates"),("snapshot resolution","resolveStateSnapshot in each adapter")],["facade values inside each render vs state argument"])
p("C11","Commands are created once per element, stay stable and stay bound",
 "The `commands` callback runs once per element (once more only after the shared adapter it was built for has been released), receives that very element as `host`, and the command functions handed to successive renders are identical; invoking them acts on that element's source.",
 ["histories","configurations"],"all histories, all source kinds, several elements of one component",
 "Tests count callback calls for one element and one render.",
 [CF,FA],[("per-host memo of additional args",f"{FA} resolveSharedAdditionalArgs"),("command facade",f"{CF} createAdditionalArgs")],["commands callback invocations per element","command identity between renders","host bound to each command"])
p("C12","emit dispatches declared events exactly once on the right element",
 "emit(type, detail) dispatches exactly one event of that type on the element whose command called it, carrying the given detail unchanged, bubbling and crossing shadow boundaries, so listeners on the element, its ancestors and the document each see it once and listeners of other elements do not. In development emitting a type that is not declared in the component's events map throws (names inherited from Object.prototype included) and dispatches nothing; in production it is dispatched.",
 ["inputs","histories","configurations"],"all event maps, types, payloads, host positions (nested shadow roots, disconnected), elements and modes",
 "Tests emit one declared event and one obviously unknown one.",
 [CF,"src/events.ts"],[("declared-type check and CustomEvent",f"{CF} createEmit")],["events seen by listeners on host, ancestors, document, siblings"])
p("C13","Adapters deliver every state change to every live listener, in order",
 "For XState, Redux and MobX adapters: subscribing delivers the current state to the new listener exactly once and at once; from then on each state change made outside a listener (for MobX: and outside a batch), whoever makes it, is delivered to every subscribed listener exactly once and in order, with the new state, and after changes made by listeners, too, every listener has last been told the final state; after unsubscribe returns a listener is never called again, and other listeners are unaffected (unsubscribing twice is harmless, and a function subscribed twice counts twice). A machine that ends by itself is no exception: its last state is delivered and stays readable. getState always equals the source's current state.",
 ["histories","schedules"],"all interleavings of subscribe, unsubscribe (also from inside a listener), send, external change and getState over several listeners",
 "Tests use one or two listeners and one change.",
 AD,[("listener set and lazy source subscription","subscribe in each adapter")],["calls to each listener with their values","getState"])
p("C14","A stopped adapter is silent and frozen",
 "After stop() no listener is called again, getState keeps returning the state at the time of stopping even if the source moves on, send has no effect on the source and only warns, and stop may be called again without effect; a shared source keeps working for everyone else, while a machine actor the adapter created is stopped.",
 ["histories","schedules"],"all histories with stop at any point, followed by any operations",
 "Tests stop once right after a single subscribe.",
 AD,[("isStopped flag and last snapshot","stop/getState/send in each adapter")],["listener calls","getState","source state","warnings"])
p("C15","Mounting JSX produces exactly the described DOM",
 "For every JSX tree (elements, fragments, components, nested arrays, strings, numbers, booleans/null, SVG and foreignObject content, attributes, DOM properties, style strings and objects, class/className, htmlFor, event handlers) the first render produces exactly the DOM that the tree describes: the same nodes in the same order and namespace with exactly those attributes, properties and styles, text never interpreted as HTML, and absent props (false, null, undefined) leaving no trace.",
 ["inputs","programs"],"all JSX trees",
 "Tests mount a few hand-written trees.",
 [RR,"src/jsx/jsx-runtime.ts",ST],[("mount",RR)],["DOM after the first render"])
p("C16","Updating leaves the same DOM as rendering from scratch",
 "After any sequence of renders of a root, the resulting DOM equals what mounting the last JSX tree from scratch would give: same nodes, order, text, attributes, properties and styles, with nothing left over from earlier trees. This holds whether or not the update could be done in place; a render whose component throws leaves the DOM as it was, and later renders work.",
 ["histories","inputs"],"all sequences of JSX trees rendered into one root",
 "Tests check a handful of two-step updates; diffing bugs need particular pairs of trees (shorter, reordered, changed kind, removed props) and longer histories.",
 [RR,ST],[("diff/patch with replace fallback",RR)],["DOM after each render vs DOM of a fresh mount"])
p("C17","In-place updates keep nodes, focus and what the user typed",
 "When the new tree has the same structure as the rendered one (possibly with extra children at the end; a mere reordering of siblings is not the same structure), every existing DOM node stays in place as the same object, so focus, selection, scroll and listeners added by others survive, and a form control's value or checked state that the user changed is only overwritten when the tree's own value for it changed. A value the tree gives does not overwrite the text of a control that reports isComposing.",
 ["histories","inputs"],"all sequences of structurally compatible trees interleaved with user input",
 "Tests check identity for one node and one update.",
 [RR],[("compatibility test and in-place patch",RR)],["node identity before/after","value/checked/activeElement"])
p("C18","Event handlers: exactly the current handler runs, once",
 "For every sequence of renders, dispatching an event on a rendered element runs exactly the handler the last tree gave for that event, once; handlers removed or replaced by later trees never run again, and onClick/onItemAdded-style names map to click/item-added.",
 ["histories","inputs"],"all sequences of trees with handlers added, replaced, removed",
 "Tests click once after one update.",
 [RR],[("listener bookkeeping",RR)],["handler invocations per dispatched event"])
p("C19","Opt-outs replace the whole view and are reported as configured",
 "With the replace strategy configured, diffing disabled by flag, a nodiff/hydrated attribute on the host, or a deny-listed host tag, each render after the first replaces the content with a fresh copy of the described DOM; a deny-listed element inside the tree is itself replaced on each render; and the reason is logged at the configured level (nothing at level off); otherwise content is updated in place without such logging. Rendering before attaching or after detaching is an error.",
 ["configurations","histories"],"all combinations of strategy, flag, host attributes, deny-list and logging level over all render histories",
 "Tests try single opt-outs with one update each.",
 [ST,RR],[("strategy decision and logging",ST)],["node identity after re-render","console output"])
p("C20","Every component root gets the global styles exactly once",
 "Whatever the order of element creation, configuration loading and changes of the global styles, each component root ends with exactly one style node for the styles in force when it was attached (or, if none were known yet, for the first styles loaded afterwards), whichever renderer is used and however often it re-renders; a stylesheet reference becomes a link with the given href, integrity and crossorigin, and invalid references are reported and add nothing.",
 ["schedules","inputs","configurations"],"all orders of element creation, config loading and style setting; all style values",
 "Tests inject once, with styles set before the element.",
 ["src/injectStyles.ts","src/globalStyles.ts","src/config/loadIgniteConfig.ts"],[("pending roots and flush","src/injectStyles.ts")],["style/link nodes of every root after each step"])
p("C21","defineIgniteConfig normalises and publishes configuration",
 "After defineIgniteConfig the configuration visible through getIgniteConfig is the normalised form of the input, in every loaded copy of the library: an unknown renderer is reported and becomes lit, `styles` wins over the deprecated globalStyles (which still works, with a warning), and global styles change only if the config defines styles. The last definition wins.",
 ["inputs","histories"],"all config inputs and sequences of definitions",
 "Tests try single configs.",
 ["src/config.ts"],[("normalisation","src/config.ts")],["getIgniteConfig result","console output","global styles"])
p("C22","loadIgniteConfig applies what the loader provides, or nothing",
 "For every loader outcome (module with a default export, a plain config object, nothing usable, a rejection) loadIgniteConfig resolves to the normalised config it applied or to undefined with the configuration untouched, or rejects with the loader's error; after it resolves the config is in force, waiting roots are styled and the selected renderer is available.",
 ["inputs","schedules","fault_sequences"],"all loader results, concurrent loads completing in any order, failures, server environment",
 "Tests load once with a well-formed module.",
 ["src/config/loadIgniteConfig.ts"],[("loading sequence","src/config/loadIgniteConfig.ts")],["resolved value","configuration and registry after resolution"])
p("C23","The configured renderer is the one used, with a reported fallback",
 "An element factory uses the renderer named by the configuration in force when it is created (the JSX renderer if none is configured); if that renderer is not registered it falls back to the JSX renderer, else to the first registered one, warning when the renderer asked for was another than JSX, and fails with an error only if none is registered. An explicitly supplied renderer always wins, and registering a name again replaces it.",
 ["configurations","histories"],"all configurations and registration orders",
 "Tests try a few registry states.",
 ["src/renderers/resolveConfiguredRenderStrategy.ts","src/renderers/RenderStrategy.ts",FA],[("lookup and fallback","src/renderers/resolveConfiguredRenderStrategy.ts")],["which strategy renders","console output"])
p("C24","The build plugins find the right config file",
 "Given a project root, the plugins use the explicitly given config path (absolute, or relative to the root) and no other file, or, if none is given, the first existing of ignite.config.ts, .js, .mjs, .cjs in the root; files with other names or in other directories (the working directory included) do not count, and when the file does not exist the build is left unchanged.",
 ["inputs","configurations"],"all combinations of present files, roots and configPath options",
 "Tests mock one or two combinations of existing files.",
 ["src/plugins/configFile.ts"],[("candidate order","src/plugins/configFile.ts")],["file imported by the plugins' output"])
p("C25","The Vite plugin injects exactly one loader for the config",
 "When a config file is found the Vite plugin adds exactly one inline module script to every HTML page, at the configured position (head-prepend by default), which imports exactly that config file and applies it through loadIgniteConfig with specifiers that resolve for a page in the project root; otherwise it adds nothing and warns.",
 ["configurations","inputs"],"all roots, config locations (inside and outside the root, unusual names) and plugin options",
 "Tests check one location.",
 ["src/plugins/viteIgniteConfigPlugin.ts"],[("transformIndexHtml","src/plugins/viteIgniteConfigPlugin.ts")],["returned tags"])
p("C26","The webpack plugin puts the loader first in every entry and loses none",
 "For every webpack entry shape (string, array, map of names to strings, arrays or descriptors, where a descriptor without modules stands for webpack's default ./src, function returning any of them synchronously or asynchronously, or none) the plugin makes each entry start by loading the config through loadIgniteConfig exactly once, waiting for it, and keeps everything else of the entry, order and options included; applying it twice changes nothing more, and without a config file the entry is untouched.",
 ["inputs","configurations"],"all entry shapes and nestings, repeated application",
 "Tests try some shapes with one entry each.",
 ["src/plugins/webpackIgniteConfigPlugin.ts"],[("entry rewriting","src/plugins/webpackIgniteConfigPlugin.ts")],["rewritten entry"])
p("C27","igniteCore recognises every supported source, and only those",
 "Without an explicit adapter igniteCore binds XState machines and actors, Redux stores, slices and store factories, and MobX observables and observable factories to the matching library in the documented scope (isolated for machines, slices and factories; shared for live instances), runs a user factory at most once to recognise it (not at all when the adapter is named) and once per element, and rejects anything else with an error; an explicit adapter name is honoured.",
 ["inputs"],"all kinds of source values, look-alikes included",
 "Tests infer each kind once with canonical values.",
 ["src/IgniteCore.ts","src/igniteCore/index.ts","src/utils/adapterGuards.ts","src/utils/mobxGuards.ts"],[("inference order","src/IgniteCore.ts")],["scope and behaviour of the resulting component","thrown errors"])
p("C28","Registration accepts every renderer shape and rejects misuse",
 "A component can be registered with a render function, an object with render (called on that object) or a class with render (instantiated once per shared registration and once per isolated element, called on the instance), all displaying the same; registering a taken tag name fails and leaves the existing component working, and an unusable renderer or an invalid facade result is reported as an error.",
 ["inputs","histories"],"all renderer shapes, scopes and registration sequences",
 "Tests register each shape once.",
 [FA,CF],[("resolveRenderer",f"{FA} resolveRenderer"),("facade validation",f"{CF} ensureFacadeResult")],["rendered output, this binding, thrown errors"])
p("C29","Importing the package without a DOM is safe",
 "Every public entry point can be imported, and igniteCore/defineIgniteConfig called, where no DOM exists (server, tests, build tools) without throwing; only the two globals needed to declare components (HTMLElement, customElements) are stubbed there, and a DOM that exists is never replaced.",
 ["configurations"],"all public entry points, all import orders, with and without DOM globals",
 "Tests always run with jsdom globals.",
 ["src/index.ts","src/xstate.ts","src/redux.ts","src/mobx.ts","src/config/loadIgniteConfig.ts"],[("guards on window/HTMLElement","src")],["import outcome, globals before and after"])
p("C30","The beta release never publishes unless every gate passed",
 "The beta release script (scripts/release-beta.mjs) publishes only after a clean working tree, an npm login, and successful changeset status, test, build, version and install steps, in that order; if any step fails it exits non-zero at once, without running later steps, and nothing is published (a failing publish makes it exit non-zero too). The publish step gets the beta tag and the one-time password given by option, environment or prompt, in that order of preference (with --skip-otp nothing is asked and only the environment's is passed on; an empty answer gives none; an aborted prompt is a failed step), and a dry run never publishes for real.",
 ["fault_sequences","inputs"],"all single and combined step failures, all OTP and dry-run options",
 "No test runs the script.",
 ["scripts/release-beta.mjs"],[("sequential gating","scripts/release-beta.mjs")],["commands executed (stubs) and exit code"])
p("C31","The token refresh never reports success or leaks on failure",
 "refreshNpmToken() stores exactly the newly created token in the repository secret and reports success only if the secret store confirmed it; any failing step (npm, missing environment, API error) makes it fail, and the token value is never written to the log.",
 ["fault_sequences"],"all failures of each step",
 "Tests cover single failures with mocks.",
 ["scripts/refresh-npm-token.js"],[("sequential steps","scripts/refresh-npm-token.js")],["API calls, log output, outcome"])
here=os.path.dirname(os.path.abspath(__file__))
open(os.path.join(here,"..","properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
