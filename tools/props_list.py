# ---------------------------------------------------------------- dsp
p("D01", "Debounced keying changes only after a stable run of raw samples",
  "The debounced state takes the raw state exactly when the raw state has been the same for at least the configured number of consecutive samples, and otherwise stays what it was; a configured number below two passes the raw state through unchanged. A glitch shorter than the configured number never reaches the output, whatever the history before it.",
  ["inputs", "histories"], "every sequence of raw samples and every threshold, including threshold changes between samples",
  "The one test feeds a single sequence with threshold 3.",
  ["dsp/dsp.go"], [("BoolDebouncer.Debounce", "dsp/dsp.go"), ("SpectralDemodulator.Tick", "cw/spectral.go")])
p("D02", "Rolling mean and variance describe exactly the last n values",
  "After every value put into a rolling mean or rolling variance of size n, the result equals the mean (respectively the population variance) of the last n values put in, counting values before the first as zero; resetting makes it indistinguishable from a new one.",
  ["inputs", "histories"], "every sequence of values, every window size, any position of a reset",
  "No test exercises the rolling mean or variance; errors appear only for particular orders of values after the window has wrapped.",
  ["dsp/dsp.go"], [("RollingMean.Put", "dsp/dsp.go"), ("RollingVariance.Put", "dsp/dsp.go")])
p("D03", "History queries answer over exactly the most recent values",
  "A rolling history of length n returns, for every index 1..n, the value put in that many puts ago (zero where nothing was put yet), and its sum, maximum, minimum, mean and variance queries, over the last k values or over chosen indexes, equal those of exactly these values. Asking for more than the available length is refused, never answered with other data.",
  ["inputs", "histories"], "every sequence of puts (wrapping any number of times), every query and index",
  "The single test computes four ring indexes; no query is tested.",
  ["dsp/dsp.go"], [("RollingHistory.ringIndex", "dsp/dsp.go"), ("RollingHistory.forEach", "dsp/dsp.go")])
p("D04", "Spectrum bins and frequencies correspond one-to-one",
  "For every even block size, every FFT result lands in exactly one spectrum bin, ordered by ascending frequency with the centre frequency in the middle bin, and the power spectrum uses the same bin order. Converting a bin to its centre frequency and back yields the same bin, any frequency at least 1 Hz inside a bin's range maps to that bin, bin frequencies increase with the bin number, and frequencies outside the band map to the nearest edge bin.",
  ["inputs", "configurations"], "every bin, every frequency, every centre frequency, and the sample-rate/block-size combinations in use",
  "Tests check six bin indexes and two exact bin centres.",
  ["dsp/fft.go"], [("binToSpectrumIndex", "dsp/fft.go"), ("FrequencyMapping.BinToFrequency", "dsp/fft.go"), ("FrequencyMapping.FrequencyToBin", "dsp/fft.go")])
p("D05", "Peak search reports exactly the maximal runs above the threshold",
  "For every spectrum, the reported peaks are, in ascending order, exactly the maximal runs of adjacent bins whose averaged value exceeds the threshold, including runs touching either edge; each peak's signal bin is the strongest bin of its run and carries its averaged value, its frequency bounds are those of its first and last bin, and it contains exactly the bins of its run. Reusing the result buffer never lets earlier peaks leak into a later result.",
  ["inputs"], "every spectrum content, threshold and cumulation count",
  "FindPeaks has no test.",
  ["dsp/fft.go"], [("FindPeaks", "dsp/fft.go")])
p("D06", "A peak's reported signal frequency lies within its signal bin",
  "For every spectrum whatsoever (flat plateaus, exact silence in neighbouring bins, negative levels), the signal frequency reported for a peak lies within half a bin of the centre of its signal bin. When the neighbours are equally strong it is the bin centre, and for a signal bin at least as strong as its neighbours it leans towards the stronger neighbour.",
  ["inputs"], "every combination of bin levels around the signal bin, including infinities and equal values",
  "The interpolation has no test and only degenerates for special level combinations.",
  ["dsp/fft.go"], [("PeakCenterCorrection", "dsp/fft.go"), ("SignalFrequency", "dsp/fft.go")])
p("D07", "Noise floor is the quietest stretch of the observed band",
  "The noise floor equals the smallest mean over the consecutive, equally long windows that partition the band between the edges, so that a carrier of any strength in some windows never raises it while another window is quiet, and bins within the edge width never influence it; the variance reported with it is that of the same window. Fewer than ten observed bins are taken as windows of a single bin, and if nothing is left between the edges the noise floor is still the level of some bin.",
  ["inputs", "configurations"], "every power spectrum and every edge width that leaves at least ten observed bins",
  "The noise floor has no test.",
  ["dsp/fft.go"], [("FindNoiseFloor", "dsp/fft.go")])
p("D08", "Tone detector uses exactly one block and never triggers on silence",
  "The block is at least one sample long for every pitch. Detection fails with an error and no state change when fewer samples than one block are given, and otherwise looks at exactly the first block of the buffer and evaluates the magnitude of the pitch's Fourier component in it; a block of silence is never detected as a signal whatever was received before, and the detector's adaptive reference level never falls below its lower limit.",
  ["inputs", "histories"], "every buffer content and length, every prior detector state, every positive threshold",
  "Tests feed a handful of generated tones.",
  ["dsp/dsp.go"], [("Goertzel.Detect", "dsp/dsp.go"), ("Goertzel.NormalizedMagnitude", "dsp/dsp.go")])
p("D09", "Queries over a section of a block use exactly the values of the section",
  "The sum, mean, maximum (with its index) and subblock of a section of a block are those of exactly the values from the first to the last bin of the section, the maximum of a filter block is the largest absolute sample value, and the width, center and bin membership of a peak follow from its first and last bin and frequency.",
  ["inputs"], "every block content and section, every peak",
  "Tests cover none of these queries.",
  ["dsp/fft.go", "dsp/dsp.go"], [("Block.Max", "dsp/fft.go"), ("Block.Mean", "dsp/fft.go"), ("FilterBlock.Max", "dsp/dsp.go")])
# ---------------------------------------------------------------- cw
p("C01", "Standard-timed Morse keeps decoding correctly once the decoder is locked",
  "Once the decoder has locked on to a keying speed, every mark of one dit is taken as a dit and every mark of three dits as a da, and gaps of one, three and seven dits are taken as symbol, character and word gaps, whatever order they come in and whatever the speed, also when they are up to ten percent off; the decoder stays locked, and a text keyed in this way comes out as it was keyed.",
  ["inputs", "histories"], "every speed, every text length (one step from an arbitrary locked state)",
  "Tests decode fixed texts at fixed speeds.",
  ["cw/decode.go"], [("AdaptiveThreshold.Put", "cw/decode.go"), ("Decoder.Tick", "cw/decode.go")])
p("C02", "Every keying, however malformed, decodes to a well-formed character stream",
  "For every sequence of key-up and key-down samples the decoder keeps running and writes only characters of the Morse table, word spaces, and the marker for unreadable characters; every character it writes stands for at least one mark that was not written before, and after a long enough pause nothing is pending and nothing more is written until the next mark.",
  ["inputs", "histories"], "every keying sequence",
  "Recorded and generated streams are well-formed keying.",
  ["cw/decode.go"], [("Decoder.Tick", "cw/decode.go"), ("Decoder.decodeCurrentChar", "cw/decode.go")])
p("C03", "Every symbol sequence becomes its table character or the unknown marker",
  "A keyed sequence of up to eight dits and das followed by a gap produces exactly one output character: the one the Morse table assigns to exactly that sequence, or the unknown marker when there is none. Longer sequences are split after eight symbols without losing any symbol, and an overlong mark spoils only the character it is part of.",
  ["inputs"], "every sequence of dits and das up to ten symbols, with or without an overlong mark",
  "Tests key only sequences that are in the table.",
  ["cw/decode.go"], [("cwChar.append", "cw/decode.go"), ("Decoder.decodeCurrentChar", "cw/decode.go")])
p("C04", "The adaptive timing estimate stays sane for every mark and gap length",
  "Whatever durations are fed to an adaptive threshold, its short and long estimates stay positive and finite and within the range of what was observed and preset, the short estimate never exceeds the long one, and the decision threshold lies between the two; a duration of ten times the short estimate or more changes nothing.",
  ["inputs", "histories"], "every duration sequence (one step from an arbitrary valid state)",
  "Tests observe the threshold only through decoding of regular text.",
  ["cw/decode.go"], [("AdaptiveThreshold.Put", "cw/decode.go")])
p("C05", "A reset decoder behaves like a new one",
  "After a reset, a decoder, and likewise the demodulator with its debouncing, produces for every further input exactly the output a newly created one produces for it, no matter what was decoded before the reset, including an interrupted character, an overlong mark or a key held down.",
  ["histories", "inputs"], "every keying before and after the reset",
  "Tests reset only between complete, well-formed texts.",
  ["cw/decode.go"], [("Decoder.Reset", "cw/decode.go"), ("Decoder.Clear", "cw/decode.go")])
p("C06", "Audio decoding does not depend on how samples are delivered",
  "The audio demodulator evaluates consecutive blocks formed from the first channel's samples in order, each sample exactly once, no matter how the stream is cut into writes; every sample is scaled by the configured or automatic factor and limited to full scale, and a write reports all its samples as consumed.",
  ["inputs", "configurations"], "every sample content, every partition of the stream into frame-aligned writes, one or two channels, every scale setting",
  "The audio demodulator has no test.",
  ["cw/audio.go"], [("AudioDemodulator.Write", "cw/audio.go"), ("AudioDemodulator.run", "cw/audio.go")])
p("C07", "Closing the audio demodulator always ends and never strands a caller",
  "Closing the demodulator always returns, also when it is repeated, and every settings call and query returns whether it is made before, during or after the close; a query of a demodulator that is not closed returns the value that was set last.",
  ["schedules"], "every interleaving of the processing loop, a closing caller and a caller changing settings",
  "The audio demodulator has no test; the outcome depends on the schedule.",
  ["cw/audio.go"], [("AudioDemodulator.do", "cw/audio.go"), ("AudioDemodulator.Close", "cw/audio.go")])
p("C08", "The reported speed follows the sent one, a preset speed is understood at once",
  "The reported speed is the preset one until the first da, and with every da that a locked decoder receives the distance between the reported and the sent speed (within the deviation of the keying, 10 percent) is halved; dits and gaps leave it unchanged. From the preset of a speed on, the first character that is sent at this speed (up to 10 percent off) is decoded as it was keyed.",
  ["inputs", "histories"], "every sent and every reported speed, every deviation of the keying",
  "No test checks the reported speed or presets one.",
  ["cw/decode.go", "cw/audio.go"], [("Decoder.ditToWPM", "cw/decode.go"), ("Decoder.presetWPM", "cw/decode.go"), ("AudioDemodulator.WPM", "cw/audio.go")])
# ---------------------------------------------------------------- rx
p("R01", "Listener pool never exceeds its size and never shares an identity",
  "For every sequence of bind, release and reset, at most the configured number of listeners is bound, all bound listeners have distinct identities from the pool's fixed set, binding succeeds exactly when fewer than the configured number is bound, and each release frees exactly the released listener. After everything is released the whole capacity is available again.",
  ["histories"], "every sequence of pool operations",
  "The test runs one sequence.",
  ["rx/listener.go"], [("ListenerPool.BindNext", "rx/listener.go"), ("ListenerPool.release", "rx/listener.go"), ("IDPool", "rx/listener.go")])
p("R02", "Detected peaks never overlap and busy peaks are never displaced",
  "In the table of detected peaks every bin belongs to at most one peak and every peak occupies exactly its own contiguous range; a newly detected peak replaces overlapped peaks that nobody is listening to, but is ignored when it overlaps one that is or was listened to, while a forced peak always takes its range. Looking up a bin returns the peak covering it or nothing, also for bins outside the table.",
  ["histories", "inputs"], "every sequence of put, forced put, activate, deactivate and cleanup with arbitrary ranges, also beyond the table edges",
  "The test runs one sequence on one table.",
  ["rx/peaks.go"], [("PeaksTable.Put", "rx/peaks.go"), ("PeaksTable.ForcePut", "rx/peaks.go"), ("PeaksTable.clear", "rx/peaks.go")])
p("R03", "Peaks expire on time unless listened to, and only fresh ones are offered",
  "Cleaning up removes exactly those peaks that are not being listened to and were detected at least the timeout ago, completely and without touching neighbours. A peak is offered for listening exactly if it is in the table and nobody has been assigned to it since it was detected; if there is any such peak, one is offered.",
  ["histories", "inputs"], "every table content, every clock value, every random draw",
  "Tests check one peak at two instants; the random choice is not controlled.",
  ["rx/peaks.go"], [("PeaksTable.Cleanup", "rx/peaks.go"), ("PeaksTable.FindNext", "rx/peaks.go")])
p("R04", "Listener reports activity with its own frequency and times out when due",
  "A listener's timeout is reported exactly when more than the attachment timeout has passed since it was attached or more than the silence timeout since it last decoded a character or was attached. Attaching and detaching are each reported once, with the listener's identity and the frequency of the signal it was attached to, and while detached it ignores all input.",
  ["inputs", "histories"], "every clock value, every timeout, every peak",
  "Listener behaviour has no test.",
  ["rx/listener.go"], [("Listener.TimeoutExceeded", "rx/listener.go"), ("Listener.Attach", "rx/listener.go"), ("Listener.Detach", "rx/listener.go")])
p("R05", "A callsign is recognised wherever it falls in the received text",
  "A callsign of the usual form (an optional prefix with a slash, one or two letters or a digit with one or two letters, a digit, then only letters, an optional suffix with a slash) and of up to nine characters, delimited by whitespace on both sides and received character by character, is recognised exactly once wherever it falls in the received text and however much text was received before it (except for tu5nn, which is taken for a report). The result does not depend on text received before the processing was restarted.",
  ["inputs", "histories"], "every position of the callsign, every surrounding text, character by character reception",
  "Tests use two fixed texts; whether a callsign survives depends on its position relative to the text window.",
  ["rx/text_processor.go"], [("textWindow.Shift", "rx/text_processor.go"), ("textWindow.FindNext", "rx/text_processor.go"), ("TextProcessor.findNextCallsign", "rx/text_processor.go")])
p("R06", "A callsign is spotted only on enough evidence, and the best one stays",
  "A callsign is spotted only after it was decoded at least three times (twice if it is a known contest call), every decode is reported with its running count, and the spotted callsign is always one with the most evidence. A spotted callsign is replaced, with one timeout report for it, only when another one has strictly more evidence.",
  ["histories", "schedules"], "every order in which callsigns are decoded, every map iteration order",
  "Ties are resolved by random map order, which a test sees one outcome of.",
  ["rx/text_processor.go"], [("TextProcessor.collectCallsign", "rx/text_processor.go"), ("TextProcessor.bestMatch", "rx/text_processor.go")])
p("R07", "Missing reference data never stops callsign recognition",
  "When the country prefix list or the contest callsign list cannot be obtained, decoded callsigns are still collected and spotted, prefixes are not rejected and no callsign gets extra weight, and nothing crashes.",
  ["fault_sequences", "inputs"], "every combination of available and unavailable reference data",
  "The tests need the downloads and fail without them.",
  ["rx/text_processor.go"], [("setupDXCCFinder/setupSCPFinder", "rx/text_processor.go"), ("TextProcessor.isValidDXCC", "rx/text_processor.go")])
p("R08", "Detaching a listener is safe while it is still decoding",
  "Detaching, restarting or stopping a listener's text processing at any moment, also while a callsign is being processed, never crashes and always ends; after it has ended no further callsign of the detached listener is reported, and every report made carries the listener's frequency.",
  ["schedules"], "every interleaving of the text processing and the detaching caller",
  "No test detaches a listener that is processing text.",
  ["rx/listener.go", "rx/text_processor.go"], [("Listener.Detach", "rx/listener.go"), ("TextProcessor.Stop", "rx/text_processor.go")])
p("R09", "IQ frames are taken whole and unaltered, or not at all",
  "The receiver accepts a frame only if it is running and the frame has the configured sample rate and block size, never blocks the data source however many frames are waiting, and processes every accepted frame in order with the sample values it had when it was handed over, even if the source reuses its buffer.",
  ["inputs", "histories", "schedules"], "every frame size and rate, every queue fill level, every content",
  "The receiver has no test.",
  ["rx/receiver.go"], [("Receiver.IQData", "rx/receiver.go")])
p("R10", "Receiver settings apply to current and future listeners, at any time",
  "Every setting made on a receiver (scope, timeouts, debounce, peak threshold, edge width, centre frequency), whether before it is started or while it is running, takes effect for all bound listeners and for every listener bound later, and reading the centre frequency returns the last one set; no such call ever hangs.",
  ["histories", "schedules"], "every order of settings, starts and listener bindings",
  "The receiver has no test.",
  ["rx/receiver.go"], [("Receiver.newListener", "rx/receiver.go"), ("Receiver.do", "rx/receiver.go")])
p("R11", "Only the selected listener's text reaches the console",
  "Text decoded by a listener is written to the console exactly when that listener is the selected one, unaltered and in order, and text of all others is swallowed while their writers see success. In decode mode the text that is keyed at the VFO's frequency is the one that reaches the console. In strain mode it is the text of the listener on the VFO's frequency, if there is one.",
  ["histories", "inputs"], "every sequence of selections and writes",
  "The channel writer has no test.",
  ["rx/receiver.go"], [("ChannelWriter.write", "rx/receiver.go")])
p("R12", "Every reporter sees every event, in order and unchanged",
  "Every activity, decode, spot and timeout event is delivered exactly once to every registered reporter, in the order of occurrence, with unchanged callsign, frequency and counts, and callsigns are spotted in upper case.",
  ["histories", "inputs"], "every event sequence and any number of reporters",
  "The fan-out has no test.",
  ["rx/receiver.go", "rx/listener.go"], [("Receiver.CallsignSpotted", "rx/receiver.go"), ("Listener.CallsignSpotted", "rx/listener.go")])
# ---------------------------------------------------------------- kiwi
p("R13", "Every signal gets a listener once, which is released when its time is up",
  "In strain mode, after every hundred frames, if a listener is free, the signals above the threshold are looked up, and if one of them has not been listened to since it was detected, exactly one of those gets a listener; otherwise nothing happens. A signal is found exactly if it exceeds the noise by more than the threshold. A callsign at the end of a listener's text is recognised at the first regular check after five seconds without further text, for every listener, and at every regular check signals without a listener expire when their time is up. A listener is released with the first frame after its time is up and not before, which is reported once with its identity and frequency. A signal that was given up gets a listener again only once it has expired and was detected anew. There are never more listeners than the receiver may have, and no two on one signal. While it is attached, a listener decodes what is keyed on its own signal, whatever happens beside it.",
  ["histories", "inputs"], "every history of signals that come and go, every time that passes, every timeout, every signal level",
  "The receiver has no test.",
  ["rx/receiver.go", "rx/peaks.go", "rx/listener.go"], [("Receiver.run", "rx/receiver.go"), ("PeaksTable.Put", "rx/peaks.go"), ("Listener.TimeoutExceeded", "rx/listener.go")])
p("K01", "No message from a KiwiSDR can crash the client; IQ samples decode exactly",
  "Every message of any content and length is either decoded or rejected with an error; IQ payloads decode to one value per big-endian 16-bit sample in order, equal to the sample divided by the largest positive sample value, independent of earlier messages; a block of unexpected size is dropped as a whole or handed on in complete parts, never fatal.",
  ["inputs"], "every byte sequence up to the bound, every sample value",
  "Tests decode three header examples.",
  ["kiwi/client.go"], [("decodeKiwiMessage", "kiwi/client.go"), ("decodeIQMessage", "kiwi/client.go")])
p("K02", "KiwiSDR status messages are understood exactly",
  "A status message is a list of blank-separated parameters; each well-formed name=value pair is recorded under its name, a busy, bad-password or down flag set to 1 yields the corresponding error and ends the connection, the audio rate is taken when it is a valid positive number and otherwise keeps its value, and any other content never yields one of these errors.",
  ["inputs"], "every message text up to the bound",
  "Tests decode six example messages.",
  ["kiwi/client.go"], [("Client.decodeConfigurationMessage", "kiwi/client.go")])
p("K03", "Losing the KiwiSDR connection never crashes or hangs the program",
  "Whatever order reads fail, writes fail and the client is closed in, the client shuts down without crashing, closing it returns, repeated closing is harmless, and a caller sending a command after the loss is not blocked.",
  ["schedules", "fault_sequences"], "every interleaving of reader, writer, sender and closer, every failure point",
  "No test connects a client.",
  ["kiwi/client.go"], [("Client.readLoop", "kiwi/client.go"), ("Client.writeLoop", "kiwi/client.go"), ("Client.Close", "kiwi/client.go")])
p("K04", "KiwiSDR: the given host is dialled, settings and samples reach the receiver",
  "The client connects to exactly the host and port it was given (port 8073 if none is given), whether the address is IPv4 or IPv6, and gives the device the user name, the password, the centre frequency (in kHz) and the band around it exactly as they were given. Every setting (peak threshold, debounce, timeouts, scope, receive frequency) that is made before the connection is established is applied to the receiver when it starts, every setting that is made afterwards is applied at once, and no other value is ever applied later. Sample messages that consist of whole blocks are passed on completely, in order and in equal blocks, all others are dropped completely, and closing the process ends the connection and the receiver and is harmless when repeated.",
  ["inputs", "histories"], "every port, IPv4 and IPv6 addresses, every sequence of settings with arbitrary values, every sample value",
  "No test covers the process or connects a client.",
  ["kiwi/kiwi.go", "kiwi/client.go"], [("Process.Connected", "kiwi/kiwi.go"), ("Process.IQData", "kiwi/kiwi.go"), ("Client.connect", "kiwi/client.go")])
# ---------------------------------------------------------------- telnet
p("T01", "A callsign is announced once per kilohertz and silence period",
  "A spot is announced exactly if the same callsign on the same frequency rounded to full kilohertz was never announced before or was last announced more than the silence period ago; suppressed spots do not extend the period, and other callsigns or frequencies never suppress it.",
  ["inputs", "histories"], "every sequence of spots with arbitrary callsigns, frequencies and times, every silence period",
  "No test covers suppression.",
  ["telnet/telnet.go"], [("Server.shouldAnnounce", "telnet/telnet.go"), ("newSpotHash", "telnet/telnet.go")])
p("T02", "Spot lines keep the DX cluster column layout",
  "Every announced spot is one line ending in a single newline in which, for a reporter call of up to nine, a callsign of up to twelve and a comment of up to thirty characters and a frequency of 1 kHz to 1 GHz, the frequency in kilohertz with one decimal (right-aligned), the callsign, the comment and the time stand in fixed columns on every band and are exactly the given values.",
  ["inputs"], "every callsign, comment and reporter call within the column widths, every frequency and every time of day",
  "One example line is tested.",
  ["telnet/telnet.go"], [("Server.formatSpotMessage", "telnet/telnet.go")])
p("T03", "Every connected client gets every spot in order; dead ones are dropped",
  "Every announced spot is handed once, in order, to every client that is connected at that time; exactly the clients whose connection has failed are removed, and the remaining ones keep receiving everything.",
  ["fault_sequences", "histories"], "every combination of failing clients over several spots",
  "No test connects clients.",
  ["telnet/telnet.go"], [("Server.run", "telnet/telnet.go"), ("Server.removeConnection", "telnet/telnet.go")])
p("T04", "Telnet input and output survive arbitrary fragmentation",
  "Everything written to a client arrives completely and in order however the connection splits writes, and the login takes as user name exactly the bytes before the first line end, however the input is fragmented; after the login further input changes neither the user name nor the spots the client gets.",
  ["inputs", "fault_sequences"], "every fragmentation of reads and writes, every input byte",
  "No test covers the connection.",
  ["telnet/telnet.go"], [("Connection.writeAll", "telnet/telnet.go"), ("Connection.parseAnswerByte", "telnet/telnet.go")])
p("T05", "A failing telnet client never blocks the spot distribution",
  "Writing to a client connection always returns once the connection has failed, was closed or has taken no data for the write timeout, at whatever moment that happens, so that the server keeps serving the other clients; closing a connection or the server is harmless when repeated, and announcing a spot never blocks after the server was stopped.",
  ["schedules", "fault_sequences"], "every interleaving of the server's writes with the failure of the connection",
  "No test covers the connection; the hang needs a failure while a write is waiting.",
  ["telnet/telnet.go"], [("Connection.Write", "telnet/telnet.go"), ("Connection.run", "telnet/telnet.go")])
# ---------------------------------------------------------------- scope
p("S01", "Scope frames reach every responsive viewer; stuck viewers are dropped",
  "Every frame is delivered in order to every registered viewer that has room for it, each viewer without room is disconnected and never gets another frame, and no combination of stuck viewers affects the others or crashes the server.",
  ["histories", "fault_sequences"], "any number of viewers, every combination of stuck viewers, every order of registration and frames",
  "The test uses one stuck viewer.",
  ["scope/server_grpc.go"], [("grpcServer.sendFrameToStreams", "scope/server_grpc.go"), ("grpcServer.removeStream", "scope/server_grpc.go")])
p("S02", "Scope frames arrive with the content they were shown with",
  "A frame shown on the server side arrives at the client with the same stream, the same instant, the same channels and markers, the same number and order of spectrum values, and every number equal to the original rounded to single precision.",
  ["inputs"], "every frame content within the bound, every timestamp",
  "The round-trip test checks only the stream name of empty frames.",
  ["scope/server.go", "scope/client.go"], [("ScopeServer.ShowTimeFrame", "scope/server.go"), ("readTimeFrame", "scope/client.go")])
p("S03", "Stopping the scope server never crashes a component that sends frames",
  "Sending frames or opening a viewer while the scope server is shutting down neither crashes nor hangs the sender, whatever the interleaving, and all viewers are disconnected by the shutdown.",
  ["schedules"], "every interleaving of senders, new viewers and the shutdown",
  "Tests stop the server only while it is idle.",
  ["scope/server_grpc.go"], [("grpcServer.run", "scope/server_grpc.go"), ("grpcServer.SendFrame", "scope/server_grpc.go")])
# ---------------------------------------------------------------- tci
p("X01", "TCI data reaches the receiver complete, in order, and only for its trx",
  "IQ data of the selected transceiver is passed on completely and in order in equal consecutive parts, frequency changes of the selected transceiver's primary VFO are applied, and data or changes of any other transceiver or of the secondary VFO have no effect.",
  ["inputs"], "every transceiver number, VFO, frequency and block content",
  "The TCI package has no test.",
  ["tci/tci.go"], [("tciListener.IQData", "tci/tci.go"), ("tciListener.SetIF", "tci/tci.go")])
p("X02", "Closing the TCI connection always returns and every report is handled",
  "Reports of activated and deactivated listeners, spotted callsigns and timeouts that are made while the TCI process is running are handled exactly once and in order; while it is closed, no report and no caller of close ever hangs, however many reports are waiting, and closing is harmless when repeated.",
  ["schedules", "histories"], "every interleaving of reports with the shutdown, any number of waiting reports",
  "The TCI package has no test; the hang needs a shutdown while reports are waiting.",
  ["tci/tci.go"], [("Process.doAsync", "tci/tci.go"), ("Process.run", "tci/tci.go")])
p("X03", "TCI settings take effect whenever they are made, spots are forwarded",
  "The process connects to exactly the given host and port, or to port 40001 if none is given, and tells the device to deliver the sample rate its receiver works with. Every setting of the TCI process that is made before the connection is established is applied to the receiver when it connects, every setting that is made afterwards is applied at once, and no other value is ever applied; every spotted callsign is forwarded to the spotter with its callsign and frequency and is shown and hidden at the TCI device exactly as configured.",
  ["inputs", "histories"], "every sequence of settings, connects and reports with arbitrary values",
  "The TCI package has no test.",
  ["tci/tci.go"], [("Process.onConnected", "tci/tci.go"), ("Process.showSpot", "tci/tci.go")])
# ---------------------------------------------------------------- cli
p("A01", "Host arguments are split into host and port as written",
  "For every host argument, an explicit numeric port after the last colon is used as the port and everything before it as the host, a missing host or port is replaced by the default, and a bracketed IPv6 literal addresses exactly that IPv6 host.",
  ["inputs"], "every argument string up to the bound",
  "The parser has no test.",
  ["cli/cli.go"], [("ParseTCPAddrArg", "cli/cli.go"), ("splitHostPort", "cli/cli.go")])
p("O01", "Every command-line option reaches what it configures",
  "For each of the commands strain tci, strain kiwi, decode tci and decode pulse: every option that is given takes effect with the value it was given, on the component it is documented for, and every option that is not given with its documented default; this includes that decode pulse records from the given source at the rate its demodulator works with, and strain kiwi takes a threshold like strain tci (15 if none is given). The command works until it is interrupted, and then everything it opened is closed.",
  ["inputs"], "every combination of one option with any value, of none and of all",
  "The commands have no test.",
  ["cmd/tci.go", "cmd/kiwi.go", "cmd/pulse.go", "cmd/root.go"], [("runStrainTCI", "cmd/tci.go"), ("runStrainKiwi", "cmd/kiwi.go"), ("runPulse", "cmd/pulse.go"), ("runWithCtx", "cmd/root.go")])
