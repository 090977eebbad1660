"""The definitions of the properties; writes properties.jsonl and MANIFEST.json (python3 tools/properties.py)."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JACK = "sumpf/_blocks/_jack.py"
P = []
CLAIMS = {}
NA = []


def prop(pid, title, statement, over, quantifier, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, (pid, len(title))
    assert statement.count(". ") <= 2, pid
    P.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": quantifier}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": hook}})


def claim(pid, technique, note):
    CLAIMS[pid] = (technique, note)


JACK_OVER = ["schedules", "histories", "fault_sequences", "inputs"]
JACK_QUANT = "every sequence of calls by one user thread, every interleaving with the JACK server's process and notification threads, every block size and signal, and every sequence of server events (xruns, stalls, block size or sampling rate changes, shutdown, external connection changes)"
JACK_WHY = "the existing tests replace the jack module by a dummy or need a running server; they sample one lucky interleaving of a handful of fixed programs and inject no server events at chosen points"
JACK_TECH = "deterministic simulation: seeded thread schedules, virtual time and server faults against a simulated JACK server"
JACK_NOTE = "exploration: sampled programs, schedules and fault sequences of the real sumpf.Jack, jack-client and connectors code over a simulated libjack, judged against the recorded history of the server; trusts the simulated server (calibrated against a real jackd)"

prop("J01", "JACK playback is sample-exact, exactly once and silent otherwise",
     "For every start of a JACK block, each channel of its input signal is sent to the corresponding output port sample by sample, completely, in order, without gaps and exactly once, whatever the block size. All samples that the block sends before, between and after these takes are silence, even if the signal ends in the middle of a block or the server's buffers hold stale data.",
     JACK_OVER, JACK_QUANT, JACK_WHY, [JACK],
     [("process callback: copies the next part of the signal into the output buffers", JACK), ("start(): resets the transport", JACK)],
     ["the content of the output buffers after each process callback of the JACK server"],
     [("transport index", "number of samples, that have been played", JACK)])
prop("J02", "A JACK recording is exactly the audio that arrived during the playback",
     "The signal that is retrieved after a take contains for each input port, in the order in which the ports were created, exactly those samples that arrived at the port while the corresponding samples of the playback signal were sent. It has the length and the offset of the played signal, the sampling rate of the server and the port names as labels.",
     JACK_OVER, JACK_QUANT, JACK_WHY, [JACK],
     [("process callback: copies the input buffers into the recording", JACK), ("output(): creates the recorded signal", JACK)],
     ["Jack.output() compared to the input buffers of the simulated server's history"])
prop("J03", "Waiting for a JACK take always ends, and never before the take is complete",
     "Retrieving the recording, changing the input signal or enabling the automatic deactivation during a take returns only after the whole signal has been played and recorded. Each of these, and every other operation, returns within a bounded number of process cycles, even if the JACK server is shut down before, during or after the start of the take.",
     JACK_OVER, JACK_QUANT, JACK_WHY, [JACK],
     [("event, that is set by the process callback and the shutdown callback", JACK), ("waiting in output(), input() and auto_deactivate()", JACK)],
     ["returns of the block's methods in the recorded history, virtual time and cycle count"])
prop("J04", "JACK recordings and playback signals never change afterwards",
     "A recording that has been retrieved from a JACK block keeps its samples, whatever is done with the block later on, including further takes and the deletion of the block. Signals that are passed to the block are never modified.",
     JACK_OVER, JACK_QUANT, JACK_WHY, [JACK],
     [("start(): allocates a new array for each recording", JACK)],
     ["samples of the returned and the passed signals at the end of the history"])
prop("J05", "JACK connections survive deactivation, re-activation and new input signals",
     "Connections that have been made with the block's connect method, or by other JACK clients while the block was active, exist again whenever the block is active, after any sequence of deactivations, activations, takes and changes of the input signal or of the other ports. No other connections are made, connections that were removed externally while the block was active stay removed, and a connection of a channel survives, when the number or the labels of the channels change.",
     JACK_OVER, JACK_QUANT, JACK_WHY, [JACK],
     [("stored connections, re-established on activation", JACK), ("update of the output ports for a new input signal", JACK)],
     ["the set of connections in the server after each operation"],
     [("stored connections", "pairs of ports, that shall be connected, when the client is active", JACK)])
prop("J06", "JACK ports correspond to the input signal and the requested input ports",
     "After every operation the block has one uniquely named output port per channel of its input signal, named by the channel's label, if that is given and unique, and exactly the input ports that have been requested and not removed, in the order of their creation. Ports can be specified by index, short name, full name or port object with the same effect, and an unknown specifier leads to a ValueError and changes nothing.",
     JACK_OVER, JACK_QUANT, JACK_WHY, [JACK],
     [("creation of the output ports from the labels", JACK), ("add_input_port(), remove_input_port(), resolution of port specifiers", JACK)],
     ["the ports in the server after each operation", "Jack.input_ports()"])
prop("J07", "Xruns and sampling rate changes are reported completely and correctly",
     "Every xrun is counted exactly once and reported with its delay in seconds and with the start and stop sample of the affected block in the signal that is being played. The sampling rate that the block reports is that of the server's latest notification, and observers that are connected to these values see the same values.",
     JACK_OVER, JACK_QUANT, JACK_WHY, [JACK],
     [("xrun callback and sampling rate callback", JACK), ("pass-through blocks, that propagate the values", JACK)],
     ["Jack.xruns(), Jack.sampling_rate() and connected observers"])
prop("J08", "The JACK client is active exactly when it should be and closed with its block",
     "With automatic deactivation the client is active only from the start of a take until its end has been waited for or it has been activated explicitly; without it, the client is active from its creation on, except between explicit deactivations and activations. After the block has been deleted, its client is closed, even if the deletion happens during a take, within the process callback or after a shutdown of the server.",
     JACK_OVER, JACK_QUANT, JACK_WHY, [JACK],
     [("activate(), deactivate(), auto_deactivate(), waiting", JACK), ("__del__ closes the client", JACK)],
     ["the state of the client in the simulated server"])
for _p in list(P):
    claim(_p["id"], JACK_TECH, JACK_NOTE)


IO = ["sumpf/_data/_signals/_signal.py", "sumpf/_data/_filters/_base/_filter.py", "sumpf/_data/_spectrums/_spectrum.py", "sumpf/_data/_spectrograms/_spectrogram.py", "sumpf/_internal/_persistence"]
IO_OVER = ["histories", "fault_sequences", "crash_points", "inputs"]
IO_WHY = "the existing tests save and load one file at a time on a disk that never fails; they never inject errors, short transfers, crashes, leftovers of earlier files or a missing library, and use short data sets only"
IO_TECH = "deterministic simulation: seeded histories of saves and loads of the real code on a disk with injected faults (libc-level shim)"
IO_NOTE = "exploration: sampled histories, data sets, formats and fault sequences; the real sumpf, Python and libsndfile I/O code runs on a disk whose results are decided by the seed; oracle: the saved data set, and an independent new process for loading"
prop("P01", "Saving and loading a data set returns the same data set",
     "Signals, spectrums, spectrograms and filters that are saved to a file and loaded from it again have the same data, parameters and labels within the limits of the file format, for every supported format, automatic format selection, every length and every kind of path. This holds regardless of what has been saved, loaded or overwritten before and of how the disk splits the transfers, while the saved data set and all other files stay unmodified and no files remain open.",
     IO_OVER, "every sequence of save, load and remove operations on signals, spectrums, spectrograms, filters and their formats, every splitting of reads and writes by the operating system", IO_WHY, IO,
     [("readers and writers for each format", "sumpf/_internal/_persistence"), ("automatic selection of formats", "sumpf/_internal/_persistence")], ["the loaded data set compared to the saved one", "the files in the target's folder"])
prop("P02", "A failing disk is always reported and never leads to wrong data",
     "If the disk reports an error while a data set is saved, the save method raises an exception instead of claiming success. If it does while one is loaded, the load method raises an exception or returns the right data, and after any of these failures the data set, all other files and later operations are unaffected, so that repeating the operation on a working disk succeeds.",
     IO_OVER, "every sequence of save and load operations, every position and kind of error (no space left, I/O error, permission, too many open files) in open, read, write, close", IO_WHY, IO,
     [("readers and writers for each format", "sumpf/_internal/_persistence"), ("fall-back from one reader to the next", "sumpf/_internal/_persistence")], ["exceptions of save and load", "the loaded data set", "the files on the disk"])
prop("P03", "Damaged or incomplete files are rejected cleanly",
     "Loading a file that is empty, truncated, damaged, of a foreign format, or was left behind by a crash at any point of a save raises a ValueError (or a FileNotFoundError, if there is no file) or returns a well-formed data set. It never crashes, hangs, or affects later saves and loads of the same or of other files.",
     IO_OVER, "every crash point of a save operation with lost or torn writes, every truncation and corruption of a saved file", IO_WHY, IO,
     [("readers for each format, which reject files", "sumpf/_internal/_persistence")], ["exceptions and results of load", "later operations of the history"])
prop("P04", "Saving and loading in concurrent threads does not interfere",
     "Threads that save and load data sets at the same time get the same results as if each of them was running alone, as long as they do not write to the same file. Files that are loaded by several threads at once lead to the same data set in each of them.",
     ["schedules", "histories", "inputs"], "every interleaving of two or more threads that save and load data sets with any formats", "the existing tests never use threads", IO,
     [("readers and writers, which are selected and created for each operation", "sumpf/_internal/_persistence")], ["results of the threads' operations compared to those of a sequential execution"])
prop("P05", "Without the soundfile library, saving and loading still works where possible",
     "If the optional soundfile library is not installed or cannot be imported, all formats that do not require it are saved and loaded as usual and automatic format selection falls back to other implementations. Formats that require it raise a ValueError, without leaving a damaged file behind that loads as something else.",
     ["histories", "fault_sequences", "inputs"], "every sequence of save and load operations with the library missing or appearing at any time", IO_WHY, IO,
     [("conditional imports of soundfile", "sumpf/_internal/_persistence")], ["results and exceptions of save and load"])
for _p in P:
    if _p["id"].startswith("P"):
        claim(_p["id"], IO_TECH, IO_NOTE)


BLOCKS = ["sumpf/_blocks/_concatenate.py", "sumpf/_blocks/_merge.py"]
BLOCK_OVER = ["histories", "schedules", "fault_sequences", "inputs"]
BLOCK_WHY = "the existing tests check a few fixed sequences of a handful of data sets with the default executor; they do not vary the order of operations, the executors, the thread schedule, or let computations fail"
BLOCK_TECH = "deterministic simulation: seeded networks and histories of processing blocks with simulated threads, executors and allocation failures"
BLOCK_NOTE = "exploration: sampled networks, histories, schedules and faults of the real blocks and the real connectors package; oracle: a small reference model (B01, B02) or the same history without faults or concurrency (B03, B04)"
prop("B01", "The Concatenate block's result always corresponds to its current inputs",
     "After any sequence of adding, replacing, removing, connecting, disconnecting and changing inputs, the result of a Concatenate block is the concatenation of its current inputs in the order in which they were added: each begins at the end of its predecessor plus its own offset, overlapping samples are summed up, gaps, missing channels and missing frequency bins are zero. The result is a signal or spectrogram with the first input's sampling rate (and resolution), an offset and length that cover all inputs, and all samples exactly as in the inputs, also when real and complex inputs are mixed; a single input is passed through, and an empty block raises a RuntimeError.",
     BLOCK_OVER, "every history of operations on networks of Concatenate blocks and sources, all lengths, offsets, channel counts and types of the inputs", BLOCK_WHY, BLOCKS[:1],
     [("Concatenate.output(): computes the places of the inputs and sums them up", BLOCKS[0]), ("Concatenate.add/replace/remove: manage the inputs", BLOCKS[0])], ["Concatenate.output()"], [("data", "the inputs in the order of their ids", BLOCKS[0])])
prop("B02", "The Merge block's result always corresponds to its current inputs and mode",
     "After any sequence of adding, replacing, removing, connecting, disconnecting and changing inputs and changing the mode, the result of a Merge block contains each channel of each current input exactly once with its label, ordered by the inputs' order of addition (or by the channels' index first, if this mode is selected, also for inputs with different numbers of channels). Signals and spectrograms are aligned by their offsets, shorter inputs are padded with zeros, spectrums, spectrograms and filters are supported as well as signals; a single input is passed through, and an empty block raises a RuntimeError.",
     BLOCK_OVER, "every history of operations on networks of Merge blocks and sources, both modes, all lengths, offsets, channel counts and types of the inputs", BLOCK_WHY, BLOCKS[1:],
     [("Merge.output(): selects the merging function for the data type and the mode", BLOCKS[1]), ("Merge.add/replace/remove/set_mode", BLOCKS[1])], ["Merge.output()"], [("data", "the inputs in the order of their ids", BLOCKS[1])])
prop("B03", "A failed computation leaves a processing block in a usable state",
     "If the computation of a Concatenate or Merge block fails, because there is not enough memory, because inputs of different types are mixed, or because the mode is invalid, an exception is raised. As soon as the reason is removed, the block's results are the same as if the failure had never happened, in every further course of operations.",
     BLOCK_OVER, "every history of operations with failing allocations at any point of any computation, mixed data types and invalid modes", BLOCK_WHY, BLOCKS,
     [("output() of the blocks, which allocates the result", BLOCKS[0]), ("output() of the blocks, which allocates the result", BLOCKS[1])], ["results after failed computations compared to those of a history without the failure"])
prop("B04", "Processing blocks deliver the same results with every executor and schedule",
     "The results of networks of Concatenate and Merge blocks do not depend on whether they are computed sequentially, in threads or in processes, on the number of workers, on the delays of the sources, or on other users working with the same data sets in other networks at the same time. Every computation ends.",
     BLOCK_OVER, "every interleaving of user and worker threads, every executor configuration, every delay of the sources", BLOCK_WHY, BLOCKS,
     [("parallelization of output()", BLOCKS[0]), ("parallelization of output()", BLOCKS[1])], ["results compared to those of a sequential execution"])
prop("B05", "Processing blocks never modify their inputs or their earlier results",
     "The data sets that are passed to Concatenate and Merge blocks are never modified, and a result that has been retrieved from a block keeps its samples, labels and parameters, whatever is done with the block and its inputs later on, including computations of other users with the same data sets.",
     BLOCK_OVER, "every history of operations of one to three concurrent users on shared data sets", BLOCK_WHY, BLOCKS,
     [("output() of the blocks, which allocates a new result", BLOCKS[0]), ("output() of the blocks, which allocates a new result", BLOCKS[1])], ["inputs and all earlier results at the end of the history"])
for _p in P:
    if _p["id"].startswith("B"):
        claim(_p["id"], BLOCK_TECH, BLOCK_NOTE)


VALUES = ["sumpf/_data/_signals/_signal.py", "sumpf/_data/_spectrums/_spectrum.py", "sumpf/_data/_spectrograms/_spectrogram.py", "sumpf/_data/_filters/_base/_filter.py", "sumpf/_data"]
VALUE_OVER = ["histories", "schedules", "fault_sequences", "inputs"]
VALUE_WHY = "the existing tests call each operation with a few data sets, once, in one thread, in a process with all libraries and enough memory, whose fresh memory usually is zero, and rarely look at the operands afterwards"
VALUE_TECH = "deterministic simulation: seeded sessions of operations with simulated memory, thread schedules, interruptions, missing libraries and entropy, compared to a simulated execution without faults"
VALUE_NOTE = "exploration: sampled sessions of about 80 operations of the real code; oracle: the invariant, that data sets never change, and the results of another simulated execution of the same session without the faults or the concurrency"
OPERATIONS = [("overloaded operators and methods of the data sets", f) for f in VALUES[:4]]
prop("V01", "Operations never modify their operands or arguments",
     "Signals, spectrums, spectrograms and filters are immutable: no operator, method, generator or constructor changes the samples, labels or parameters of its operands, of arrays that are passed as arguments, or of results of earlier operations, whatever their shape, offset, memory layout and the order of the operations. Operations also work with operands whose samples are read-only.",
     VALUE_OVER, "every sequence of operations on data sets, that share operands and results", VALUE_WHY, VALUES, OPERATIONS, ["samples, labels and parameters of all existing data sets after each operation"])
prop("V02", "Data sets can be used in concurrent threads",
     "Threads that work with the same signals, spectrums, spectrograms and filters at the same time get the same results as when their operations are executed one after another. The operations do not change the process' global settings (for example for warnings), and never block each other forever.",
     VALUE_OVER, "every interleaving of two or more threads with any operations on shared data sets, with any settings for warnings", VALUE_WHY, VALUES, OPERATIONS, ["results of the threads' operations compared to those of a sequential execution", "the filters of the warnings module"])
prop("V03", "A failed or interrupted operation has no effect",
     "If an operation with data sets runs out of memory or is interrupted (KeyboardInterrupt) at any point, the exception reaches the caller instead of a wrong result, and no data set is changed. Repeating the operation, and all later operations, lead to the same results as if the failure had not happened.",
     VALUE_OVER, "every sequence of operations, every allocation that can fail, every line at which an operation can be interrupted", VALUE_WHY, VALUES, OPERATIONS, ["exceptions of the failed operations, results of the repeated operations, samples of all data sets"])
prop("V04", "Results never depend on the content of uninitialised memory",
     "The results of all operations are determined by the values of their operands: each sample of each result is initialised, even if the lengths, offsets, windows or channel counts do not fit to each other, so that the result is independent of what the allocated memory contained before. They do not depend on the memory layout of the operands' samples, either.",
     VALUE_OVER, "every sequence of operations, every content of freshly allocated memory", VALUE_WHY, VALUES + ["sumpf/_internal"], [("allocation of arrays for results", "sumpf/_internal")], ["results of two executions with different contents of uninitialised memory"])
prop("V05", "Missing optional libraries lead to the same results or an ImportError",
     "If any of the optional libraries (numexpr, scipy, soundfile and jack) are missing, sumpf can still be imported. Operations that do not depend on them have the same results, those that cannot work without them raise an ImportError, when they are used (the windows that are computed by scipy and the maximum length sequence are not available without it), and everything works as soon as the library is available.",
     VALUE_OVER, "every combination of missing libraries, every sequence of operations, every point at which a library becomes available", VALUE_WHY, VALUES + ["sumpf/_data/_signals/_sweep.py", "sumpf/_data/_signals/_windows_scipy.py"],
     [("alternative implementations without numexpr", "sumpf/_data/_signals/_sweep.py"), ("conditional imports", "sumpf/_data")], ["results and exceptions of the operations"])
prop("V06", "Results do not depend on what has been computed before",
     "The result of an operation depends on its operands and parameters only, not on the operations that have been performed before in the same process, on data sets that existed before and have been deleted, or on the order of independent operations. It is the same as in a fresh process that only performs this operation and those on whose results it depends.",
     VALUE_OVER, "every sequence of operations with varying parameters, creation and deletion of data sets", VALUE_WHY, VALUES + ["sumpf/_internal"], OPERATIONS, ["results of a session compared to those of fresh processes"])
prop("V07", "Data sets are the same after being copied or sent to other processes",
     "Signals, spectrums, spectrograms, filters and instances of their derived classes can be copied, pickled and sent to and received from other processes at any time. The copies have the same type, data and parameters, compare as equal, and lead to the same results in all operations.",
     VALUE_OVER, "every sequence of operations with any of the operands being copied, pickled or computed in another process", VALUE_WHY, VALUES, [("classes of data sets", f) for f in VALUES[:4]], ["copies of the data sets and results of operations with them"])
prop("R01", "Seeded noise is reproducible in every history, unseeded noise is not",
     "A noise signal, that is created with the same class, parameters and seed (including 0, sequences and numpy types), has the same samples in every process, thread and history, regardless of what other random numbers have been drawn by sumpf, by other threads or by the user. Creating noise does not change the state of the global random number generators, seed() returns the given seed, and noise without a seed is different each time.",
     VALUE_OVER, "every sequence of noise generations and draws from the global generators in one or two threads, every kind of seed, every entropy of the operating system", VALUE_WHY, ["sumpf/_data/_signals/_noise.py", "sumpf/_data/_signals/_mls.py"],
     [("creation of the random number generator", "sumpf/_data/_signals/_noise.py")], ["samples of the noise signals", "state of the generators of numpy and random"])
prop("F01", "A filter's channels are evaluated independently of each other and of the past",
     "The transfer function of each channel of a filter has the same values at each frequency, no matter which other channels or frequencies are evaluated together with it, how often or in which order it is evaluated, whether threads evaluate it concurrently, and whether earlier evaluations have failed or were interrupted. Evaluating a filter never modifies it or the given frequencies.",
     VALUE_OVER, "every filter made of any terms, every set and order of frequencies including 0 Hz, every sequence and interleaving of evaluations, combinations and failures", VALUE_WHY, ["sumpf/_data/_filters", "sumpf/_data/_filters/_base/_filter.py", "sumpf/_data/_filters/_base/_s.py"],
     [("Filter.__call__ and Filter.spectrum", "sumpf/_data/_filters/_base/_filter.py"), ("frequency variable with its lowpass-to-highpass-transformation", "sumpf/_data/_filters/_base/_s.py")], ["values of the transfer functions"])
prop("L01", "Every operation with data sets comes to an end",
     "Every operator, method, generator and constructor returns a result or raises an exception after a bounded number of steps, for all combinations of data sets of the same or different types, numbers, arrays and other objects on either side of an operator, for iterations over data sets, for empty data sets and for all indices and parameters. This also holds after failed or interrupted operations.",
     VALUE_OVER, "every combination of operands and parameters in every sequence of operations", VALUE_WHY, VALUES + ["sumpf/_data/_sampled_data.py", "sumpf/_internal/_indexing.py"],
     [("operators", "sumpf/_data/_sampled_data.py"), ("computation of indices", "sumpf/_internal/_indexing.py")], ["number of executed lines and computing time of each operation"])
for _p in P:
    if _p["id"][0] in "VRFL":
        claim(_p["id"], VALUE_TECH, VALUE_NOTE)


def not_applicable(pid, title, statement, files, reason):
    prop(pid, title, statement, ["inputs"], "every input", "the existing tests check a few inputs", files, [("implementation", files[0])], ["results of the operations"])
    NA.append({"property": pid, "reason": reason})


PURE = "a pure function of its inputs: there is no concurrency, time, I/O, fault or other party, on which it depends, so a simulator has nothing to decide; "
not_applicable("N01", "Fourier transforms are inverse to each other",
               "The inverse Fourier transform of a signal's Fourier transform is the signal, and the same holds for the short time Fourier transform with windows that allow a reconstruction.", VALUES[:3],
               PURE + "the interplay with memory, threads, interruptions and missing libraries is covered by V01 to V07")
not_applicable("N02", "Convolution and correlation fulfil the convolution theorem",
               "The convolution (correlation) of two signals in the time domain equals the multiplication of their spectrums (with the conjugate) for all modes, lengths and offsets.", VALUES[:1], PURE + "the numerical identity is a matter for property based testing")
not_applicable("N03", "Operators on data sets obey the algebra of their samples",
               "Adding, subtracting, multiplying, dividing, exponentiating and inverting data sets is done sample by sample with the documented rules for different lengths, offsets and channel counts.", VALUES[:3] + ["sumpf/_data/_sampled_data.py"],
               PURE + "that the operators leave their operands unchanged, initialise every sample and come to an end is covered by V01, V04 and L01")
not_applicable("N04", "Filters have the transfer functions of their definition",
               "Butterworth, Bessel, Chebyshev, weighting, delay, derivative and bands filters have the transfer functions from the literature or their specification.", ["sumpf/_data/_filters"], PURE + "independence of history, threads and faults is covered by F01")
not_applicable("N05", "Sweeps, waves, windows and fades have the documented shapes",
               "The samples of sweeps, sine and square waves, windows and fades are those of the documented formulas, for all intervals, lengths and plateaus.", ["sumpf/_data/_signals"], PURE + "the equality with and without numexpr is covered by V05")
not_applicable("N06", "Interpolations pass through their supporting points",
               "Bands filters interpolate and extrapolate with the selected method and return the given values at the given frequencies.", ["sumpf/_internal/_interpolation.py", "sumpf/_data/_filters/_bands.py"], PURE + "the formulas have to be checked against a mathematical specification")
not_applicable("N07", "Noise signals have the specified distributions",
               "The samples of noise signals follow the specified probability distribution.", ["sumpf/_data/_signals/_noise.py"], "a statistical statement about a pure function of the seed; the simulated entropy decides only the seed; reproducibility is covered by R01")
not_applicable("N08", "Levels, statistics and decay times are computed correctly",
               "Levels, means, variances, higher moments and the results of the energy decay curve are those of their definitions.", VALUES[:1] + ["sumpf/_data/_signals/_energy_decay.py"], PURE + "independence of uninitialised memory is covered by V04")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    ids = {p["id"] for p in P}
    assert len(ids) == len(P) and ids == set(CLAIMS) | {n["property"] for n in NA}
    manifest = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [{"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
                    "evidence_file": f"evidence/{p['id']}.json", "technique": CLAIMS[p["id"]][0], "level": "exploration", "level_note": CLAIMS[p["id"]][1]}
                   for p in P if p["id"] in CLAIMS],
        "not_applicable": NA,
        "notes": "All checks run one simulated system per worker process (dst/). Replay: bash check.sh PROPERTY --replay FILE. No hooks in /repo are needed: all seams are third-party modules, threading, time and libc.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
