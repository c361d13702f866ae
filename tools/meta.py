"""Writes properties.jsonl and MANIFEST.json from one table (python3 tools/meta.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "continual/"
CONT, CONV, POOL, DEL, SKIP, MOD, CVT, RNN = (C + f for f in (
    "container.py", "conv.py", "pooling.py", "delay.py", "skip.py", "module.py", "convert.py", "rnn.py"))
LIN, CLO, SHP, PE, TR, UT, ONX = (C + f for f in ("linear.py", "closure.py", "shape.py", "positional_encoding.py", "transformer.py", "utils.py", "onnx.py"))
MB, MR, MS = (C + "multihead_attention/" + f for f in ("mha_base.py", "retroactive_mha.py", "single_output_mha.py"))

P = {}


def prop(pid, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (pid, len(title))
    P[pid] = {
        "id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "observe_at": list(observe), "hook_needed": hook},
    }


EQ = "the tests compare a handful of configurations on random numbers with a tolerance (many with all-one weights, one shape, one stride)"

prop("P01", "The offline pass of a continual module is the ordinary PyTorch module",
     "Called on a whole sequence, every continual module computes exactly what its ordinary PyTorch counterpart with the same hyper-parameters and weights computes, whether it was constructed directly or converted from it. Converting a network preserves its function for every sequence, at every nesting depth, and leaves the converted original usable and unchanged. What cannot be converted faithfully is refused with an error, never converted to something else.",
     ["inputs", "configurations"], "all real weights, biases, normalisation statistics and inputs; every listed hyper-parameter combination; nested conversions",
     EQ + "; conversion is tested on a few modules with default arguments",
     [CVT, CONV, POOL, LIN, RNN, CONT, TR], [("continual / forward_stepping / build_from of every class", CVT), ("forward of convolutions", CONV), ("forward of pools", POOL), ("build_from of containers", CONT)],
     observe=["module(x), module.forward(x) against the torch module"])
prop("P02", "Streaming convolution equals offline convolution",
     "Feeding a sequence to a continual convolution one step at a time, or as a block, yields exactly the outputs of the offline convolution in the same order, each at the step at which its window is complete, and nothing before. Start padding is always accounted for, end padding exactly when asked for.",
     ["inputs", "configurations", "histories"], "all real weights, biases and inputs; kernel size, padding, stride, groups, spatial parameters, padding mode; every stream length in the bound",
     EQ + "; stride phase, padding and groups are only met in few combinations",
     [CONV, MOD], [("step convolution, rolling partial sums and stride phase", CONV), ("block processing and end padding", MOD)],
     [("rolling buffer", "partial outputs still waiting for future inputs", CONV), ("buffer and stride position", "where the next partial sum goes / which steps deliver", CONV)],
     ["outputs of forward_step / forward_steps against forward"])
prop("P03", "Streaming pooling equals offline pooling",
     "Feeding a sequence to a continual average, max or adaptive pooling module one step at a time, or as a block, yields exactly the outputs of the offline pooling in order, each when its window is complete. Temporal kernel, padding, stride and dilation have the same meaning as offline.",
     ["inputs", "configurations", "histories"], "all real inputs (either sign); kernel, padding, stride, dilation, spatial parameters; every stream length in the bound",
     EQ + "; negative inputs with padding, dilation and strides are hardly combined",
     [POOL, MOD], [("pooled-step ring buffer", POOL), ("block processing and end padding", MOD)],
     [("ring buffer", "the pooled frames of the current window", POOL)], ["outputs of forward_step / forward_steps against forward"])
prop("P04", "Delays, skips and residuals keep streams aligned",
     "A delay of d returns at each step the input of d steps earlier, for every history. A residual connection combines, in every call mode, each result of the wrapped module with the input sample it belongs to, including when the wrapped module shortens the sequence.",
     ["inputs", "configurations", "histories"], "all inputs and weights; delays, fills, shrink modes, reductions and wrapped kernels in the bound",
     EQ + "; shrinking delays are tested in one call mode with one delay",
     [DEL, SKIP, CONT], [("delay line and shrink modes", DEL), ("skip", SKIP), ("Residual", CONT)],
     [("delay line", "the last d inputs", DEL)], ["outputs of forward_step / forward_steps against forward"])
prop("P05", "Sequential compositions stream like their offline composition",
     "A sequence of continual modules, fed step by step or in blocks, yields the outputs of the offline composition in order, with the delay and stride it reports. Grouping the same modules into nested sequences changes nothing.",
     ["inputs", "configurations", "histories", "programs"], "all pairs and many triples of layers with strides 1..3 and paddings; all weights and inputs",
     "tests stack a few fixed layers; strided layers inside networks and placeholders passing through them are rare",
     [CONT, MOD], [("Sequential step/block chaining and metadata", CONT)], observe=["outputs, delay and stride of the network"])
prop("P06", "Parallel branches are aligned and reduced in time",
     "Branches that run in parallel are delayed so that every combined output uses branch outputs belonging to the same offline position, whatever the branches' delays, strides and nesting. Broadcasting, dispatching and reducing in a stream give the same values as offline.",
     ["inputs", "configurations", "histories", "programs"], "all pairs/triples of branches in the families; all reductions; all weights and inputs",
     "tests use two or three fixed branches and stride one",
     [CONT, DEL], [("automatic delay of parallel branches", CONT), ("BroadcastReduce, Parallel, ParallelDispatch, Reduce", CONT)], observe=["outputs of forward_step / forward_steps against forward"])
prop("P07", "How a stream is cut into calls does not matter",
     "The concatenated outputs of a stream are the same for every way of cutting it into single-step and block calls.",
     ["schedules", "inputs"], "every composition of the stream into calls, every choice of call kind for single steps, all weights and inputs, whole module zoo",
     "tests use one or two cuts (all steps, one block); the number of schedules is exponential",
     [MOD, CONT, CONV, POOL, DEL], [("block processing shares the step state", MOD), ("chaining of blocks in networks", CONT)], observe=["concatenated outputs"])
prop("P08", "End padding completes the offline result and leaves no trace",
     "A block call with end padding returns exactly the outputs the offline pass would still deliver for everything seen so far. The padding is virtual: afterwards the stream continues as if it had not happened.",
     ["histories", "inputs", "configurations"], "histories of 0..2 steps before, three steps after, all weights and inputs, whole module zoo",
     "the tests pad the end of one fresh stream and rarely continue it afterwards",
     [MOD, CONT, DEL], [("end padding on a temporary state", MOD), ("chained end padding", CONT)], observe=["padded block outputs, outputs of the following steps"])
prop("P09", "Probing calls leave the stream untouched",
     "Calls made with state updating switched off, and offline calls, return what an updating call would have returned but change no later output of the stream.",
     ["histories", "inputs", "schedules"], "0..3 steps of history, every one or two probing calls, three steps after; all weights and inputs, whole module zoo",
     "a few modules are probed once in the tests; in-place buffer updates only show up in later outputs",
     [MOD, CONT, CONV, POOL, DEL], [("update_state handling", MOD), ("containers pass the flag on", CONT)], observe=["outputs after probing"])
prop("P10", "Cleaning the state gives a fresh stream",
     "After cleaning, a module or network behaves exactly like a newly built one with the same weights, also when the next stream has another batch size. This holds for every history.",
     ["histories", "inputs"], "every history of 0..4 steps in steps or blocks; all weights and inputs; whole module zoo",
     "tests clean single layers after one kind of history", [MOD, CONT, CONV, POOL, DEL, RNN], [("clean_state of every module", MOD), ("containers clean all parts", CONT)], observe=["outputs after clean_state"])
prop("P11", "A captured state resumes the stream",
     "The state of a module or of all parts of a network, captured at any step (also before the first, when it is None) and set again later, in the same or in another instance with the same weights, makes the stream continue exactly where it was captured, whatever happened in between.",
     ["histories", "inputs"], "capture after 0..4 steps, divergence, restore; all weights and inputs; every stateful module of the zoo",
     "tests capture and restore few layers at one point", [MOD, CONV, POOL, DEL, RNN], [("get_state / set_state of every module", MOD)], observe=["outputs after set_state"])
prop("P12", "Outputs appear exactly when the reported delay and stride say",
     "From a fresh state, a module delivers an output exactly at the steps that its reported delay and stride predict, and a placeholder at all others. Hence the number of outputs after any number of steps, and after a warm-up, is known in advance.",
     ["histories", "configurations"], "streams of 12 (thorough 18) steps for every family member, plus an integer argument over every stream length",
     "the tests check the first output of a few modules; the strided phases far into the stream are not visited",
     [MOD, CONV, POOL, CONT], [("delay property", MOD), ("stride phase", CONV), ("network metadata", CONT), ("warm_up", MOD)], observe=["presence of outputs per step"])
prop("P13", "Metadata of compositions follows the composition law",
     "The receptive field, stride, padding and delay a network reports are those of the composed computation: chains add receptive fields scaled by the strides before them, parallel branches take the largest, and nesting does not change the result. This holds for all integers the parts may report.",
     ["configurations", "programs"], "all receptive fields >= 1, paddings >= 0 and strides >= 1 of the parts (unbounded integers); chains, nestings, branches up to the stated number",
     "tests check a few networks with fixed numbers", [CONT, POOL, CONV], [("Sequential/Parallel/BroadcastReduce/Residual/Conditional metadata", CONT), ("pool receptive field", POOL)], observe=["receptive_field, stride, padding, delay"])
prop("P14", "Outputs depend on nothing outside the reported receptive field",
     "Each streamed output depends only on the inputs inside the receptive field that the module reports, ending at the current step: never on older ones and never on the future.",
     ["inputs", "histories", "configurations"], "every step of streams of receptive field + 4; every input outside the window replaced by arbitrary values; all weights",
     "no test varies inputs outside the window; stale buffer contents only show for particular values", [CONV, POOL, DEL, CONT, MS, MR], [("rolling buffers are overwritten in time", CONV), ("reported receptive field", CONT)], observe=["outputs under change of out-of-window inputs"])
prop("P15", "Streaming recurrent networks equal the offline recurrent network",
     "RNN, GRU and LSTM layers fed step by step or in blocks, from a zero or a given initial state, give the outputs and the final state of the PyTorch layer on the whole sequence.",
     ["inputs", "configurations", "schedules"], "all weights, biases, inputs and initial states; layers, sizes, bias, batch and cuts in the bound",
     "tests run one configuration on random numbers", [RNN], [("step and block of RNN, GRU, LSTM", RNN)], [("hidden (and cell) state", "the recurrent state carried between calls", RNN)], ["outputs and final state"])
prop("P16", "Single-output attention streams the chosen row of windowed attention",
     "At every step, streaming single-output attention returns the row of full attention over the most recent window that belongs to the chosen query position, starting when the window is first full. Heads, bias, separate key and value streams and widths, and input layouts mean the same as in PyTorch's attention.",
     ["inputs", "configurations", "histories"], "all weights and inputs, every query position and layout for windows up to 4, streams past the full window, all cuts",
     "tests use the last query position, one layout and random numbers, and streams hardly longer than a window",
     [MS, MB], [("sliding key/value/query memories", MS), ("projection of a step", MB)], [("key, value and query memories", "the projected window", MS)], ["outputs against nn.MultiheadAttention on the window"])
prop("P17", "Retroactive attention streams full windowed attention",
     "At every step, streaming retroactive attention returns the full attention output over the most recent window, i.e. its retroactive updates of all rows equal recomputation from scratch, for as long as the stream runs.",
     ["inputs", "configurations", "histories"], "all weights and inputs, windows up to 4 (thorough 5), up to 6 steps past the full window, all layouts, all cuts",
     "running sums drift apart only after the window slides several times and for particular values; tests run a few steps",
     [MR, MB], [("running sums updated by the arriving and the leaving step", MR)], [("row sums, values, keys, queries", "the incrementally maintained attention", MR)], ["outputs against nn.MultiheadAttention on the window"])
prop("P18", "Continual transformer encoders stream the windowed encoder",
     "A one- or two-layer continual transformer encoder, converted or built directly, returns at each step the encoder output that PyTorch's encoder gives for the most recent window at the chosen position, and offline the same as PyTorch's.",
     ["inputs", "configurations", "histories"], "all weights, inputs; heads, widths, activations, norms, query positions; streams past the full window; cuts",
     "tests use one configuration and the last position on random numbers", [TR, MS, MR], [("retroactive and single-output encoder layers", TR), ("residual delays in encoder layers", TR)], observe=["outputs against nn.TransformerEncoder on the window"])
prop("P19", "Recycling positional encodings follow the stream position",
     "The positional encoding added at each step is the one of the current stream position modulo the number of encodings, continuing across step, block and offline calls exactly as their index-update and state-update settings say.",
     ["histories", "inputs", "configurations"], "every position times every operation (hence histories of any length), all encodings and inputs",
     "tests walk one history", [PE], [("position index handling", PE)], [("position", "index of the next encoding", PE)], ["output and next position of each call"])
prop("P20", "Hooks act on calls exactly as in PyTorch",
     "Forward hooks and forward pre-hooks, on a module or global, with or without keyword arguments, run once per call, in PyTorch's order, with the call's own inputs and outputs, and what they return takes effect, in every call mode. Removing them or an exception in a call leaves later calls as they were.",
     ["inputs", "configurations", "fault_sequences"], "pairs of hooks of twelve kinds in three call modes, modes chosen by property or context, flags passed by keyword, exceptions in the call; all weights and inputs",
     "the repository's tests register no hooks", [MOD, CVT], [("hook handling of calls", MOD), ("calls of converted modules", CVT)], observe=["hook arguments, order and result against nn.Module's own call of the same function"])
prop("P21", "State dictionaries carry the whole function, flattened or not",
     "Loading the (optionally flattened) state dictionary of one network into another of the same structure makes both compute the same function, offline and in streams. Flattened dictionaries only drop the numeric levels, never entries, whichever way flattening was requested.",
     ["inputs", "programs", "configurations"], "all parameters and statistics; nestings up to three levels, named and unnamed; all ways of requesting flattening",
     "tests check the keys of a few networks", [UT, CONT], [("state_dict / load_state_dict with flattening", UT), ("FlattenableStateDict", CONT)], observe=["keys and functions of the loaded network"])
prop("P22", "A call means the selected mode, and nothing else leaks",
     "Calling a module runs the mode selected by the innermost active mode context, otherwise the module's own setting, in every nesting and after every exception. Explicitly named calls always mean what they say, for all parts of a network, and temporary settings never outlive their scope.",
     ["schedules", "configurations", "fault_sequences"], "every pair of modes, nestings to depth three, exceptions at every level, every container kind, all weights and inputs",
     "tests use one context at a time and no exceptions", [MOD, CONT, UT], [("call_mode context and property", MOD), ("mode dispatch of calls", MOD), ("temporary parameters", UT)], [("mode stack", "enclosing call modes", MOD)], ["what a call computes"])
prop("P23", "Time-independent modules treat every step like the whole sequence",
     "Activations, normalisations, lambdas, linear maps, reshapes, constants and spatial operations made continual give on each step the corresponding slice of their offline result, with no delay, no state and no effect of flags, alone or inside networks.",
     ["inputs", "configurations"], "all parameters, statistics and inputs; every automatically converted class and dimension option; batch 1..2",
     "tests sample few classes and one shape", [CVT, CLO, LIN, SHP], [("forward_stepping", CVT), ("Lambda and friends", CLO), ("Linear", LIN), ("Reshape", SHP)], observe=["forward_step / forward_steps against forward"])
prop("P24", "Conditionals run exactly the chosen alternative, aligned in time",
     "A conditional evaluates its predicate on the module and its input and returns the result of the chosen alternative only, aligned to a common delay in streams. Each alternative sees exactly the inputs for which it was chosen.",
     ["inputs", "configurations", "schedules"], "all pairs of alternatives in the family, predicates constant, switched at every step, and depending on symbolic data; all weights and inputs",
     "tests switch once between two stateless alternatives", [CONT], [("Conditional", CONT)], observe=["outputs, predicate calls"])
prop("P25", "A network driven by an explicit state equals the network holding it",
     "Passing the state explicitly from step to step, as exported networks do, gives the same outputs as the network that keeps its state, and never touches the state the network keeps itself. The exported step with its flattened state has the declared number and order of state tensors and computes the same outputs and next state.",
     ["inputs", "histories", "programs"], "streams of up to 7 steps from the first step on; the exported step from every fully initialised state; every module of the zoo; all weights and inputs",
     "tests export a few networks and compare one step after one history", [ONX, CONT, CONV, POOL, DEL, RNN, MS, MR], [("explicit state step of every module", MOD), ("flattened state wrapper", ONX), ("nested state layout", CONT)], observe=["explicit outputs and states; wrapper outputs"])
prop("P26", "Every batch element is an independent stream",
     "Processing several streams together as a batch gives for each of them exactly what processing it alone gives, in every call mode.",
     ["inputs", "schedules"], "batches of two, all weights and inputs, offline, steps, all two-block cuts and padded blocks, whole module zoo",
     "tests use batch one or compare batches only with themselves", [CONV, POOL, DEL, CONT, RNN, MS, MR, TR, PE], [("axis bookkeeping of buffers", CONV), ("state layout of attention", MR)], observe=["rows of batched outputs"])
prop("P27", "Tensors handed in or out are neither changed nor watched",
     "No call changes the inputs it was given or any output returned earlier, in evaluation and training mode. Conversely, what the caller later writes into an input or output tensor cannot influence the stream.",
     ["histories", "schedules", "inputs"], "every call of streams of steps, blocks, padded blocks and probes; inputs and outputs overwritten after each call; whole module zoo",
     "tests do not compare earlier outputs again nor reuse buffers; aliasing needs the in-place evaluation path and several steps", [CONV, POOL, DEL, SKIP, CONT, RNN, MS, MR], [("copies at the edge of in-place buffers", DEL), ("in-place buffer updates", CONV)], observe=["earlier inputs/outputs after later calls"])
prop("P28", "Instances do not influence each other",
     "Two instances, including two conversions of the same network, behave for every interleaving of their calls exactly as each would alone, also when one of them is cleaned, switched to another mode or reloaded in between.",
     ["schedules", "inputs"], "every interleaving of 3 + 3 calls; meddling operations at every point; all weights and inputs; whole module zoo",
     "tests hardly run two instances side by side", [MOD, CONT, CVT, CONV, POOL, DEL], [("per-instance state and call mode", MOD), ("conversion of shared sources", CVT)], observe=["outputs of both instances"])
prop("P29", "Copies of a network continue its stream, on their own",
     "A deep copy of a network taken at any point of a stream gives on all further calls what the original would have given, with the same call mode, and neither of them is affected by anything done to the other.",
     ["histories", "inputs", "configurations"], "copies after 0..4 steps and copies of copies, both continuing in either order; the other cleaned, fed, overwritten or switched; all weights and inputs; whole module zoo",
     "tests copy no streaming network", [CVT, MOD, CONT, POOL, CONV], [("methods attached to converted modules", CVT), ("per-instance state and call mode", MOD)], observe=["outputs of original and copy against a network never copied"])
prop("P30", "Networks can be trained on streams",
     "Back-propagating through the outputs of a stream (steps, blocks, end padding, any mixture, with discarded calls, after earlier iterations) gives for the inputs and every weight the gradients of the same outputs computed offline, which are those of the ordinary PyTorch network; in training and evaluation mode.",
     ["inputs", "schedules"], "all weights, inputs and output gradients; all two-call schedules of streams of 5 steps (recurrent and attention: 3); whole module zoo, attention and encoders",
     "tests only check that a training step runs; a detached, overwritten or mis-scaled path shows in gradients alone", [CONV, POOL, DEL, CONT, RNN, MS, MR, TR, MOD],
     [("training-mode buffers", CONV), ("in-place buffers", POOL), ("running sums of attention", MR)], observe=["autograd.grad of streamed against offline outputs"])

TECH = "bounded symbolic execution of the library on torch's ATen operators + z3 (counterexamples replayed on ordinary tensors)"
NOTE = ("For every real-valued weight/input within the stated shapes, schedules and configurations: the library's own code is executed on symbolic tensors and z3 decides the equalities of "
        "every feasible path. Assumes real arithmetic (no rounding), the ATen encodings of symx/symtensor.py (cross-checked with torch at random points) and the bounds written to the evidence.")
INT = {"P13": ("symbolic execution of the library's metadata code on unbounded integers + z3 (path by path)",
               "For every integer value of the parts' receptive field, padding and stride; chains and branches up to the stated number of parts. Trusts z3 and the integer proxies of symx/engine.py.")}

NOT_CLAIMED = [
    ("P90", "Exported ONNX graphs compute the same numbers in the runtime",
     "An exported network run by an ONNX runtime gives the outputs of the network in PyTorch.",
     ["programs", "inputs"], "all exportable networks and inputs", "a few networks are exported in tests", [ONX], [("export", ONX)],
     "the exporter and the runtime are foreign native code outside the repository; the repository's part (the step with flattened state that gets traced) is decided by P25"),
    ("P92", "Reported operation counts equal the operations executed",
     "The operation counts reported for continual modules are those of one step.",
     ["configurations"], "all modules", "tests check a few counts", [C + "ptflops.py"], [("hooks", C + "ptflops.py")],
     "counting conventions belong to an external package (ptflops) and there is no oracle for them in the repository"),
    ("P93", "Streaming stays numerically close to offline over long streams",
     "In floating point, the difference between streamed and offline outputs stays within a small bound however long the stream runs.",
     ["histories", "inputs"], "all stream lengths", "tests compare with a tolerance on short streams", [MR, CONV], [("running sums", MR)],
     "rounding error accumulation of float kernels is out of reach of the encoding (real arithmetic); bit-level float reasoning over products and exponentials does not scale"),
]


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P.values():
            f.write(json.dumps(p) + "\n")
        for pid, title, st, over, q, why, files, mech, _ in NOT_CLAIMED:
            prop(pid, title, st, over, q, why, files, mech)
            f.write(json.dumps(P.pop(pid)) + "\n")
    checks = []
    for pid in P:
        t, n = INT.get(pid, (TECH, NOTE))
        checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid} --tier quick", "thorough_cmd": f"python3 check.py {pid} --tier thorough",
                       "evidence_file": f"evidence/{pid}.json", "technique": t, "level": "model_checking", "level_note": n})
    m = {"version": 1, "setup_cmd": "true", "checks": checks,
         "not_applicable": [{"property": x[0], "reason": x[-1]} for x in NOT_CLAIMED],
         "notes": "No hooks: the checks import continual from /repo's working tree. Findings and repaired defects: known_findings.txt."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
