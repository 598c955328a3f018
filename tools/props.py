import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":m,"where":files[0] if len(files)==1 else ", ".join(files)} for m in mech]}
    if state:a["state"]=[{"name":state,"meaning":state,"where":files[0]}]
    if obs:a["observe_at"]=[obs]
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=a))
p("P01","A layout is accepted exactly when its wiring is legal",
 "Two cells are connected exactly when they touch on a hex edge where the one exposes an output and the other exposes an input. A checked edit of the grid is accepted if and only if these connections form no cycle between nodes and give no input of any node two sources; otherwise it is refused and names the reason (a cycle, or a doubly fed input together with that input and two outputs feeding it). After acceptance the reported connections and used inputs of every cell are exactly those of the layout.",
 ["inputs","histories"],"Every grid size, every placement of any node types/instances (several cells per node included) with any exposed ports, reached by any sequence of edits.",
 "matrix tests sample about a dozen fixed layouts; the space of layouts (cycles through several cells of one node, odd/even columns, border cells) is combinatorial.",
 ["src/matrix.rs","src/cell_dir.rs","src/nodes/node_graph_ordering.rs"],["Matrix::check/change_matrix/create_intermediate_nodes/update_graph_ordering_and_edges","NodeGraphOrdering::calculate_order","CellDir::offs_pos"],"grid cells + edge list","Matrix::check, change_matrix, get_connections, param_input_is_used")
p("P02","A refused edit changes nothing",
 "When an edit transaction on the grid is refused, the grid contents, all parameter values, modulation amounts, the connections and used inputs reported, the serialised patch, and the sound that keeps playing are the same as if the edit had never been attempted. The same holds for an explicit save of the grid followed by arbitrary grid edits and a restore. Later edits behave as if the refused edit never happened.",
 ["histories"],"Every history of accepted and refused edits, parameter changes and rendered audio blocks.",
 "Existing tests refuse one or two fixed edits and look at one cell.",
 ["src/matrix.rs"],["Matrix::change_matrix, change_matrix_err, save_matrix, restore_matrix"],"grid, saved grid, edges","Matrix getters, to_repr, NodeExecutor output")
p("P03","Rendered audio equals the dataflow the layout describes",
 "For every accepted layout the rendered block equals evaluating each node exactly once per sample in dependency order: an input with a source carries that source's current-block signal (or, with a modulation amount set, the parameter value plus amount times signal in the normalised domain), an unconnected input carries its parameter value. Nodes never see stale or foreign signals and there is no latency along connections.",
 ["inputs","configurations"],"Every acyclic layout of nodes, every parameter/setting value and modulation amount, every input signal.",
 "Tests check single nodes or chains of two or three nodes with fixed values.",
 ["src/nodes/node_conf.rs","src/nodes/node_exec.rs","src/nodes/node_prog.rs","src/nodes/node_graph_ordering.rs","src/matrix.rs","src/dsp/mod.rs"],["NodeConfigurator::build_node_prog/rebuild_node_ports/set_prog_node_exec_connection","NodeExecutor::process","ModOp"],"NodeProg ops and buffers","left/right output of NodeExecutor")
p("P04","Live edits never disturb untouched nodes",
 "While audio runs, adding, removing, rewiring or re-parameterising some cells, any number of times, leaves the signal of every node that does not (transitively) depend on a changed node sample for sample unchanged: its internal state and its parameters continue seamlessly.",
 ["histories","schedules"],"Every edit history interleaved at every block boundary with audio rendering.",
 "Tests render before or after a graph change, not the continuation of an unrelated part across many changes.",
 ["src/nodes/node_exec.rs","src/nodes/node_conf.rs","src/nodes/node_prog.rs"],["GraphMessage::NewNode/NewProg, copy of previous params and outputs into the new program (params_mem, inp swap)"],"NodeProg.params, smoothers","NodeExecutor output")
p("P05","The latest value set for a parameter is the one that sounds",
 "After any history of parameter changes, graph changes and rendered blocks, reading a parameter gives the value last set (default if never set) and the audio side reaches exactly that value: settings at once, continuous parameters after a monotone ramp of about 10 ms that never leaves the interval between old and new value. No update is lost, applied to another parameter, or overtaken by an older one, and clearing resets every parameter.",
 ["histories","schedules"],"All interleavings of set/modulate/sync/clear/render with any number of simultaneously moving parameters.",
 "Tests set one or two parameters and check a single ramp; no test moves more than the number of available smoothers or clears while moving.",
 ["src/nodes/node_conf.rs","src/nodes/node_exec.rs","src/matrix.rs"],["NodeConfigurator::set_param","NodeExecutor::set_param/process_smoothers","QuickMessage::ParamUpdate/AtomUpdate"],"param_values, smoothers","Matrix::get_param and node output")
p("P06","Sound does not depend on how the host slices audio into blocks",
 "For a fixed patch and fixed input, rendering the same span of time with any sequence of block sizes from 1 up to the maximum yields the same samples. (Inputs that the DSP reads once per block by design - coefficients of the biquad filter, scope controls - are held constant.)",
 ["schedules","inputs"],"Every node type, every parameter setting, every partition of the time line into blocks.",
 "Tests always render with one fixed block size.",
 ["src/nodes/node_exec.rs","src/dsp/"],["each node's process function keeps its state across calls"],None,"NodeExecutor output")
p("P07","A saved patch loads back to the same patch and the same sound",
 "For every reachable state of a matrix, saving (to text or file) and loading into any matrix restores every cell, node, parameter value, setting, modulation amount, property, tracker pattern and block program; saving again gives the same text, and the loaded patch renders the same audio as the original.",
 ["histories","inputs"],"Every patch reachable by edits, including fractional values, strings with special characters, samples, sparse patterns and nested block programs.",
 "Tests round-trip four fixed patches.",
 ["src/matrix_repr.rs","src/matrix.rs","src/dsp/satom.rs","src/dsp/tracker/pattern.rs","src/wblockdsp/definition.rs"],["MatrixRepr::serialize/deserialize, CellRepr, PatternRepr, BlockFunSnapshot, SAtom::serialize/deserialize","Matrix::to_repr/from_repr"],None,"to_repr, save/load functions")
p("P08","Loading a patch depends only on the patch and never crashes",
 "Loading a patch text either fails with an error or succeeds, whatever the text contains, and never aborts the program; when it succeeds, the resulting matrix equals that of loading the same text into a fresh matrix, regardless of what was loaded, edited or playing before.",
 ["inputs","histories"],"Arbitrary and mutated patch texts; every prior history of the receiving matrix.",
 "Tests load well-formed patches into empty matrices.",
 ["src/matrix_repr.rs","src/matrix.rs","src/dsp/tracker/pattern.rs","src/wblockdsp/definition.rs","src/dsp/satom.rs"],["deserialize_* functions; Matrix::from_repr; Matrix::clear"],None,"load_patch_from_mem, to_repr")
p("P09","Saving to a file is all-or-nothing",
 "If saving a patch to a file fails or the process dies at any point (process death, not power loss), the file under the given name still holds its previous content completely; if saving reports success, the file holds exactly the new patch. Loading a missing, truncated or unreadable file reports an error and leaves the matrix as it was.",
 ["crash_points","fault_sequences"],"Every file-system operation of the save as crash or failure point, every old/new content pair.",
 "Tests never inject a fault into a save.",
 ["src/matrix_repr.rs","src/matrix.rs"],["MatrixRepr::write_to_file (temporary file, then rename)","save_patch_to_file/load_patch_from_file"],"target file, temporary file","file content after the save")
p("P10","Parameter value mappings are consistent",
 "For every parameter of every node, converting between normalised and user-facing value is inverse in both directions over the whole range, monotone, and maps the range ends onto each other; pitch parameters use 0.1 per octave around 440 Hz. Rounding is idempotent, monotone, stays in range and goes to the nearer one of the two neighbouring raster values, and the shown text is that of the user-facing value (settings: the label of the value).",
 ["inputs","configurations"],"Every parameter of every node type and every value of its range.",
 "Tests check a few values of a few parameters.",
 ["src/dsp/mod.rs","src/dsp/"],["define_node_info/node_list tables with normalisation macros n_*/d_*/r_*/f_*","ParamId::norm/denorm/round/format"],None,"ParamId and NodeId API")
p("P11","Node, port and cell addresses are consistent",
 "Names, indices and identifiers of node types, inputs, settings and outputs convert into each other without loss or collision, for all node types and instances; unknown names or indices are reported as absent. On the hex grid, moving in a direction and then in its opposite returns to the start, direction lookup between two adjacent cells inverts moving, paths between cells lead from the one to the other, and directions map to the same ports at both ends of an edge; a cell reports its ports, labels, neighbours and free directions accordingly.",
 ["inputs","configurations"],"Every node type, instance, index, name; every grid coordinate and direction.",
 "Tests look at a few nodes and positions.",
 ["src/dsp/mod.rs","src/cell_dir.rs","src/build.rs"],["NodeId/ParamId/NodeInfo lookups","CellDir::offs_pos, from, path_from_to, flip"],None,"public lookup API")
p("P12","The tracker plays the pattern that the editor shows",
 "After any sequence of pattern edits and any interleaving with playing, the sequencer outputs per row, per track, exactly the values, gates, notes and steps that the pattern contains at that moment (once pending updates were taken), stepping exactly with its clock, including edits of length and row count, and restored patterns.",
 ["histories","schedules"],"All edit histories of all columns, types, cells and lengths, interleaved with playing; all clock inputs.",
 "Tests play a handful of fixed patterns.",
 ["src/dsp/tracker/","src/dsp/node_tseq.rs","src/nodes/node_conf.rs"],["PatternData edit operations and sync_out_data","Tracker::send_one_update / TrackerBackend::check_updates","PatternSequencer"],"pattern cells, ring buffer, interpolated column buffers","TSeq node outputs, PatternData getters")
p("P13","MIDI events take effect exactly once, in order, at their sample",
 "Every MIDI event handed to a block takes effect exactly once at its sample offset in that block, in the order given, on every node that listens to its channel, and on no other; note, gate, velocity and controller outputs follow the note-on/note-off/controller history, independent of how the events are distributed over blocks (a retriggered gate pauses for one sample). Injected events reach the same nodes.",
 ["inputs","schedules","histories"],"All event sequences and timings, all channel settings, all block partitions.",
 "Tests feed single short event lists.",
 ["src/nodes/node_exec.rs","src/dsp/node_midip.rs","src/dsp/node_midicc.rs","src/nodes/mod.rs","src/nodes/note_buffer.rs","src/nodes/node_conf.rs"],["feed_midi_events_from","EventWindowing","NoteBuffer","MidiEventPointer"],None,"MidiP/MidiCC outputs")
p("P14","The feedback pair delays by a constant time",
 "A feedback writer/reader pair reproduces the writer's signal at the reader of the same instance delayed by exactly the documented constant time at every usual sample rate (42 kHz and up), wherever both stand in the layout, however the layout is edited and the audio is sliced, with pairs isolated from each other.",
 ["configurations","schedules","histories"],"All layouts, sample rates, block partitions, instances and live edits.",
 "Tests use one layout with one sample rate and wide tolerance.",
 ["src/shared_feedback.rs","src/dsp/node_fbwr_fbrd.rs","src/nodes/node_exec.rs"],["SharedFeedback/Writer/Reader","NodeExecContext feedback buffers"],"shared delay buffer","FbRd output")
p("P15","Displayed signals are the played signals",
 "Whatever a cell plays, the monitor min/max history, the last-value output feedback and the scope recordings of that cell show exactly that signal: each monitor entry bounds the samples of its own window, output feedback equals the last sample of the last block, the scope shows consecutive samples of the connected signal, and an unconnected port shows nothing else's signal.",
 ["inputs","configurations","histories"],"All signals, layouts, monitored cells and switch-overs, scope settings.",
 "Tests watch one or two constant signals.",
 ["src/monitor.rs","src/nodes/feedback_filter.rs","src/nodes/visual_sampling_filter.rs","src/scope_handle.rs","src/dsp/node_scope.rs","src/nodes/node_exec.rs"],["MonitorBackend/Monitor","FeedbackFilter","NodeProg output feedback","ScopeHandle"],None,"get_minmax_monitor_samples, out_fb_for, scope handle")
p("P16","The sampler plays exactly the loaded sample",
 "The sampler node reproduces the samples of the chosen file, at the selected speed, from the chosen offset and within the chosen length, in one-shot or loop mode, triggered exactly at trigger edges, for every file, sample rate and parameter setting; out-of-range settings never read outside the sample. Loading the same file twice gives the same data and a missing or broken file gives silence plus an error.",
 ["inputs","configurations","histories"],"All WAV contents/formats, parameter settings and trigger signals.",
 "Tests play one small file with few settings.",
 ["src/dsp/node_sampl.rs","src/sample_lib.rs","src/matrix.rs","src/nodes/node_conf.rs"],["Sampl::next_sample/play","SampleLibrary::load"],None,"Sampl output")
p("P17","Every node stays finite and safe for every legal setting",
 "For every node type, all combinations of parameter values, settings and finite in-range input signals, at all usual sample rates (44.1 kHz and up), rendering neither aborts nor hangs nor produces infinite or not-a-number samples, and unit-range outputs (gates, envelopes, mapped values, LFOs) stay within their documented range.",
 ["inputs","configurations"],"All node types, settings, parameter histories, input signals, sample rates, block sizes.",
 "Tests probe a few settings per node.",
 ["src/dsp/"],["process functions of all nodes"],None,"node outputs")
p("P18","Visual block programs compute what they show",
 "For every program drawn from the block language that compiles, running it on audio gives the same numbers as evaluating the drawn data flow: each block applies its operation to the values on its connected inputs, effects happen top to bottom, and variables keep their values; programs that are wired illegally or cannot be compiled are refused with an error, reported once per change, instead of being miscompiled, and the program that was playing goes on.",
 ["programs","inputs"],"All block placements, shifted ports, nested areas, multi-output blocks, variables and input values.",
 "Tests compile about a dozen fixed programs.",
 ["src/wblockdsp/compiler.rs","src/wblockdsp/definition.rs","src/wblockdsp/language.rs","src/dsp/node_code.rs"],["BlockFun::generate_tree","Block2JITCompiler::compile","Code node JIT exchange"],None,"Code node output / JIT function result")
p("P19","Block editor operations keep the program well-formed",
 "After any sequence of block editor operations, no two blocks overlap or are pushed out of their area, every block that existed is still there unless it was explicitly removed, failed operations change nothing, and saving and restoring a snapshot reproduces the program exactly.",
 ["histories"],"All operation histories with valid and invalid coordinates and areas.",
 "Tests run a few fixed edit scripts.",
 ["src/wblockdsp/definition.rs"],["BlockFun::instanciate_at/move_block_from_to/clone_block_from_to/remove_at/purge_unused/retain_blocks/load_snapshot","BlockArea::check_space_at"],"areas with blocks","BlockFun/BlockView API")
p("P20","Builder interfaces configure exactly what was asked for",
 "A synthesizer assembled with the direct construction interface or a chain placed with the chain builder, for any nodes, parameters, settings, modulation amounts and connections, plays the same as the same graph laid out by hand; parameters land on the node they were given for, refused constructions report an error and change nothing, and updates change exactly the named parameters. (The direct construction interface accumulates nodes until it is cleared; a chain that does not fit into the grid places what fits.)",
 ["programs","histories"],"All graphs and chains, all update sequences, chains placed into already populated grids.",
 "Tests build three or four fixed synths/chains.",
 ["src/synth_constructor.rs","src/build.rs","src/chain_builder.rs"],["SynthConstructor::upload/update_params","MatrixCellChain::place","build::* generated types"],None,"rendered audio, Matrix::get_param")
p("P21","Control and audio threads converge without loss",
 "With the control side and the audio side running concurrently in any interleaving, neither side aborts or blocks the other, and once both are idle (the control side keeps polling) the audio output is the one that the control side's final state describes, as if all operations had been performed one after the other.",
 ["schedules","histories"],"All interleavings of control operations with audio blocks, including bursts and clears.",
 "Tests are single threaded or sleep between the steps.",
 ["src/nodes/node_conf.rs","src/nodes/node_exec.rs","src/nodes/drop_thread.rs","src/monitor.rs"],["graph update ring buffers, drop thread, atomics"],None,"NodeExecutor output after quiescence")
p("P22","Time and pitch keep their unit at every sample rate",
 "Oscillators, LFOs, envelopes, slews and delays produce the frequency, period or duration in Hz or milliseconds given by their parameters, at every sample rate from 32 to 192 kHz, for nodes created before or after a rate change.",
 ["configurations","inputs"],"All sample rates, all frequency/time settings, all orders of rate change and node creation.",
 "Tests run almost only at 44.1 kHz and a few frequencies.",
 ["src/dsp/","src/nodes/node_exec.rs"],["set_sample_rate propagation; per-node rate conversions"],None,"node outputs")
p("P23","Every node computes its documented function",
 "Mixing, mapping, quantising, multiplexing, amplifying, envelope, delay, all-pass, comb, filter, reverb, oscillator, LFO, random-walk, string and input/output nodes produce, sample by sample, the function their documentation describes of their parameters, settings and input history (trigger edges, gates, selections), whatever the block sizes.",
 ["inputs","histories"],"All settings, parameters, block sizes and input signal histories.",
 "Tests check hand-picked points.",
 ["src/dsp/","src/dsp/node_amp.rs","src/dsp/node_mix3.rs","src/dsp/node_map.rs","src/dsp/node_smap.rs","src/dsp/node_mux9.rs","src/dsp/node_quant.rs","src/dsp/node_cqnt.rs","src/dsp/node_ad.rs","src/dsp/node_adsr.rs"],["process functions"],None,"node outputs")
p("P24","Observers see every change of the matrix",
 "Every change of a parameter, property, connection or modulation amount is reported to a registered observer with the value it then has: parameters, properties and modulation amounts when they are set, changes of the grid when they are synced, loads and clears as a change of everything. MIDI events are forwarded in order, and the change counter moves with every change and never with a query.",
 ["histories"],"All histories of operations.",
 "Tests check one or two notifications.",
 ["src/matrix.rs","src/nodes/node_conf.rs"],["MatrixObserver callbacks, generation counter"],None,"observer callbacks, get_generation")
p("P25","Rust functions plugged into the graph run as nodes",
 "A Rust function that is handed to an instance of the dynamic Rust node at any time (before the node exists, or while the graph plays) is the only one that this node runs from then on, once per block, over exactly the frames of the block, with the signals that are connected to its input and its four auxiliary inputs (or their parameter values), whatever else is edited; what it writes is what the node outputs, the light and phase values it sets are the ones that are reported, it knows the current sample rate before it runs, instances never run each other's function, and functions are not freed in the audio thread.",
 ["histories","configurations"],"All histories of replacements, graph edits, parameter and sample rate changes, block sizes.",
 "One test runs one fixed function.",
 ["src/dsp/node_rust.rs","src/global.rs","src/matrix.rs","src/synth_constructor.rs"],["Rust1x1::process","DynNodeHandle/DynNodeBuffer","NodeGlobalData::send_dynamic_node1x1/get_dynamic_node1x1_buffer"],"dynamic node buffers","DynamicNode1x1 callbacks, Rust1x1 output")
p("P26","The graph drawn for a node is the curve it plays",
 "The graph that an envelope, LFO or oscillator node offers for display shows the curve that the node plays for the parameter values and settings it is drawn with: attack and decay in proportion to their times and with their shapes, sustain level and release, the wave form with its bends and distortion. All points are finite and inside the picture, and a drawing is the same whatever was drawn before, for every instance of the node.",
 ["inputs","histories"],"All parameter values, numbers of points and earlier drawings.",
 "No test draws a graph.",
 ["src/dsp/node_ad.rs","src/dsp/node_adsr.rs","src/dsp/node_bosc.rs","src/dsp/node_tslfo.rs","src/dsp/node_vosc.rs","src/dsp/mod.rs"],["graph_fun","GraphFun","GraphAtomData"],None,"NodeId::graph_fun")
p("P27","The audio callback never touches the heap or waits",
 "Whatever the control side does (edits of the grid, parameters, settings, samples, modulation amounts, patterns, block programs, Rust functions, monitors, MIDI, clearing) and whatever a patch contains, the calls that a host makes from its audio thread - taking over the graph updates, feeding MIDI events, processing a block - neither allocate nor free memory, print nothing and do not wait for data that the control side has locked: everything that is replaced is handed over to be freed elsewhere, as long as the queue for it has room.",
 ["histories","inputs"],"All histories of control operations within the capacity of the queues, all patches, settings, sample rates, block sizes and MIDI bursts.",
 "No test looks at what the audio thread allocates or frees.",
 ["src/nodes/node_exec.rs","src/nodes/node_prog.rs","src/nodes/drop_thread.rs","src/dsp/mod.rs","src/dsp/node_rust.rs","src/dsp/tracker/mod.rs"],["process_graph_updates","feed_midi_events_from","process","DropThread"],None,"NodeExecutor::{process_graph_updates,feed_midi_events_from,process}")
p("P28","What an engine was given is released",
 "A sample, observer or Rust function that was replaced, and everything that belonged to a cleared matrix, is released once the audio side has taken over the change, while nothing that is still in use is; and when an engine ends - whichever of its two halves goes first, on whatever thread, with updates under way or the audio side still playing - everything it was given and everything it made is released: an application can make and end any number of engines without growing. Handles to patterns, block programs and scopes stay usable after the engine ended.",
 ["histories","schedules"],"All histories of control operations and audio blocks and all orders of ending the two halves of an engine.",
 "Tests end a process with every few engines and never look at what is left.",
 ["src/nodes/node_prog.rs","src/nodes/drop_thread.rs","src/nodes/node_conf.rs","src/dsp/mod.rs","src/dsp/node_rust.rs","src/global.rs","src/monitor.rs"],["ProcBuf","NodeProg","ModOp","DropThread","DynNodeHandle","clear"],None,"heap balance of the process, weak references to what was handed over")
with open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/../properties.jsonl','w') as f:
    for x in P:f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P), max(len(x['title']) for x in P))
