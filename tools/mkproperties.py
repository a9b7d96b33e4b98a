import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=[{'faults':'fault_sequences'}.get(o,o) for o in over.split(' and ')],text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mech,where=files[0])])))
SCHED='interleavings'
p('C01','Sample queue never tears, repeats or reorders samples',
 'Every buffer taken from the sample queue is exactly one buffer that was put, buffers are taken in the order they were put and each at most once, and the buffer being processed is never written by the producer. A blocking queue loses nothing and delays the producer while it is full; a non-blocking queue overwrites only the newest buffer that has not been taken. After the interrupt the consumer gets everything that was put before it and then an end marker, and neither side waits forever.',
 'schedules','every queue size, buffer length, sequence of put/take/complete/interrupt and every interleaving of producer, consumer and interrupter',
 'Unit tests run the queue in one thread or with one lucky schedule; torn or lost buffers need a producer that wraps around while the consumer still works on a detached buffer.',
 ['src/queue.c','src/queue.h','src/dsp_worker.c'],
 'Free, filled and detached nodes guarded by one mutex and condition variable in queue_put, take_buffer_for_processing, complete_buffer_processing and interrupt_waiting_the_data.')
p('C02','Transmitter and local receiver have at most one owner',
 'At any time at most one client owns the transmitter, and at most one client owns the receiver when the receiver is a local device; other clients get TX_IS_BEING_USED or RX_IS_BEING_USED. The device is never taken away from its owner, and it can be used by the next client after the previous owner has left.',
 'schedules','all interleavings of connecting, leaving, failing and stopping clients and of the server threads',
 'Tests connect two clients one after another; the races between the teardown of the old owner and the check for the new one need particular schedules.',
 ['src/tcp_server.c','src/sdr/plutosdr.c','src/sdr/file_source.c'],
 'tcp_server_handle_new_client looks for a running worker with the same kind in the list of workers before the device is created; the worker is marked as stopped only after the device is destroyed.')
p('C03','RX clients with the same tuning share one sdr-server session',
 'Clients with equal center frequency, offset and sampling rate are served by one connection to sdr-server, any other client gets its own. The connection is kept while at least one of its clients is connected and is closed when the last one leaves, without affecting clients of other connections.',
 'schedules','all sequences and interleavings of joining and leaving clients, ends of streams and server threads',
 'Joining a session while its last client leaves or while the stream ends is a race that tests cannot schedule.',
 ['src/tcp_server.c','src/sdr_worker.c','src/sdr/sdr_server_client.c'],
 'sdr_worker_find_closest selects a running worker; sdr_worker_add_dsp_worker and sdr_worker_destroy_by_dsp_worker_id count the users under the mutex.')
p('C04','RX client gets its sample stream complete, in order and only once',
 'Samples that a client demodulates (visible in its dump file, demodulated file and socket) are one contiguous range of the stream of its own session: nothing is lost, repeated, reordered or taken from another session unless its queue overflowed. The first client of a session gets the stream from its beginning, a client joined later gets everything after it was joined, and everything up to the end is delivered when the stream ends.',
 'schedules and inputs','all splits of the stream into network segments and pauses, all numbers of clients and moments of joining, all interleavings of reader, DSP and client threads',
 'Tests compare one file for one client; losses at segment borders, at joins and at the end of stream depend on timing.',
 ['src/sdr_worker.c','src/dsp_worker.c','src/queue.c','src/sdr/sdr_server_client.c','src/tcp_server.c'],
 'sdr_worker_callback reads from the device and puts every buffer into the queue of each dsp_worker; sdr_server_client keeps partial samples between reads.')
p('C05','Clients are isolated from each other',
 'A client that disconnects, stops reading, sends garbage, sends nothing or loses its radio does not disturb other clients: they stay connected, their streams and transmissions go on, and new clients are accepted and answered in bounded time.',
 'faults and schedules','all misbehaviours of clients and sdr-server, at all moments, with all interleavings',
 'It is about what must not happen to other clients for any behaviour of the faulty one.',
 ['src/tcp_server.c','src/dsp_worker.c','src/sdr_worker.c','src/tcp_utils.c'],
 'Receive and send timeouts on client sockets, one thread per client, DSP workers are destroyed outside of locks.')
p('C06','Every request gets exactly one correct answer',
 'Every accepted connection gets exactly one answer to its first message (or is closed if the message is never completed), with the status and details that describe the outcome, and an identifier that was never used before when it is SUCCESS. The answer is sent before anything else, nothing follows a FAILURE or an answer to PING except closing of the connection, and no bytes other than answers and demodulated data are ever sent.',
 'histories and schedules','all sequences of messages, outcomes of resource allocation and interleavings',
 'Order of the answer and of the data produced by other threads depends on the schedule.',
 ['src/tcp_server.c','src/api_utils.c','src/tcp_utils.c'],
 'tcp_server_handle_new_client, handle_rx_client, handle_tx_client write the response after all resources are created and before the client thread starts answering.')
p('C07','Requests are validated: only servable requests succeed',
 'A request with a missing or unsupported parameter is answered with INVALID_REQUEST, a well formed request whose processing chain can not be built with INTERNAL_ERROR, and any other request with SUCCESS when resources are free. The decision depends only on the request and configuration (never truncated or wrapped values), and a rejected request touches no device and no sdr-server session.',
 'inputs','all values of all fields of RX and TX requests for every configured device type, including combinations',
 'The input space is huge and the failures are at boundaries of 8, 32 and 64 bit conversions and at combinations of fields.',
 ['src/tcp_server.c','src/api_utils.c','src/dsp_worker.c','src/dsp/fsk_demod.c','src/dsp/lpf_taps.c','src/dsp/gfsk_mod.c','src/dsp/doppler.c'],
 'validate_rx_request, validate_tx_request and the creation of demodulator, modulator, doppler and device.')
p('C08','Control stream stays in sync after any message',
 'Messages on a control connection are delimited only by their headers: after an unknown, malformed, oversized or misplaced message the following messages are processed as usual. TX_DATA that can not be used is answered with a failure, all others are ignored, and SHUTDOWN or end of the stream finishes the client.',
 'inputs','all sequences of valid and invalid messages with all lengths and all splits into segments',
 'Tests send each bad message once; resynchronisation has to hold for each following message and for every segmentation.',
 ['src/tcp_server.c','src/api_utils.c','src/tcp_utils.c'],
 'api_utils_read_header and the loops of tcp_worker threads that skip the body by the length from the header.')
p('C09','TX data is modulated and transmitted completely and in order before the ack',
 'Every byte of TX_DATA is modulated with continuous phase across buffers and messages, shifted by the requested offset and passed to the device completely and in order. The answer SUCCESS is sent only after all samples of that message (8 * samples per symbol for each byte) were accepted by the device, FAILURE is sent if the device failed, and nothing is transmitted that was not requested.',
 'inputs and faults','all lengths and sequences of messages, buffer sizes, sampling and baud rates, offsets and failures of the device',
 'Boundaries of buffers relative to messages, and failures in the middle of a message, are not enumerated by tests.',
 ['src/tcp_server.c','src/dsp/gfsk_mod.c','src/dsp/frequency_modulator.c','src/dsp/sig_source.c','src/sdr/plutosdr.c','src/sdr/file_source.c'],
 'handle_tx_data splits the payload by buffer_size, runs gfsk_mod_process and sdr_process_tx and then writes the response.')
p('C10','All resources are released on every path',
 'Threads, sockets, files, radio handles, locks and memory obtained for a client or a session are released exactly once after it is over, for every outcome: rejected requests, failures at any step of creation, disconnects, device failures and stop of the server. Nothing is used after it was released.',
 'faults and schedules','all failure points of thread creation, files, sockets and radio calls, all ways to disconnect and all interleavings',
 'Each failure point and its cleanup path has to be combined with the states of other threads.',
 ['src/tcp_server.c','src/sdr_worker.c','src/dsp_worker.c','src/sdr/plutosdr.c','src/sdr/sdr_server_client.c','src/sdr/file_source.c'],
 'tcp_worker_destroy, sdr_worker_destroy, dsp_worker_destroy and *_create rollback branches.')
p('C11','Stop request terminates the server from any state',
 'After SIGINT, SIGTERM or SIGHUP at any moment, including start of the server, the process closes all connections, releases devices and sdr-server sessions and exits with code 0 in bounded time. It never exits without being asked.',
 'schedules','all moments of the stop relative to connecting, streaming, blocked, failing and leaving clients',
 'The moment of the signal relative to each thread is a schedule.',
 ['src/main.c','src/tcp_server.c','src/sdr_worker.c','src/dsp_worker.c'],
 'tcp_server_destroy shuts down the listening socket, the acceptor destroys workers, tcp_server_join_thread waits for the acceptor.')
p('C12','PlutoSDR context is shared, released by the last user and rolled back on failure',
 'The libiio context is created by the first and destroyed by the last user, exists exactly once while any PlutoSDR device is open and is never destroyed under an open device. If any step of opening fails everything done before is undone (buffers, channels, context, configuration), a device opened by another client is not affected and the next attempt works.',
 'faults and histories','all sequences of opening and closing RX and TX with a failure injected into any libiio call',
 'Every libiio call is a failure point, combined with the other direction being open or not.',
 ['src/sdr/plutosdr.c','src/tcp_server.c'],
 'global_iio_ctx, global_iio_ctx_usages and global_iio_mutex in plutosdr_create and plutosdr_destroy.')
p('C13','Configuration is parsed with documented defaults and bounds',
 'Each setting of the configuration file has the documented default when it is missing, its exact value when it is valid, and the server refuses to start (without leaking anything) when it is of the wrong type or outside of its bounds. PlutoSDR library is loaded if and only if RX or TX is plutosdr.',
 'inputs','all combinations of present, missing, boundary and wrongly typed values of all settings',
 'Narrowing conversions and combinations of settings need generated configurations.',
 ['src/server_config.c','src/server_config.h','src/main.c'],
 'server_config_create')
p('C14','Processing blocks give the same result for any split of the stream',
 'Demodulator, modulator and their filters, interpolator, clock recovery, DC blocker, frequency modulator and signal source produce the same output samples for the whole stream no matter how the input is split into buffers, including buffers shorter than the filter. They never access memory outside of their buffers and produce nothing for empty or too long buffers.',
 'inputs','all splits of the input (up to the maximum buffer length), decimations, interpolations, numbers of taps and rates',
 'Tests use a couple of fixed buffer lengths; errors are in history handling at particular lengths.',
 ['src/dsp/fir_filter.c','src/dsp/interp_fir_filter.c','src/dsp/clock_recovery_mm.c','src/dsp/quadrature_demod.c','src/dsp/dc_blocker.c','src/dsp/frequency_modulator.c','src/dsp/gfsk_mod.c','src/dsp/fsk_demod.c','src/dsp/sig_source.c','src/dsp/lpf.c','src/dsp/mmse_fir_interpolator.c'],
 'history and phase kept between calls of *_process')
p('C15','Doppler correction follows its schedule',
 'Doppler correction keeps the number of samples, recalculates the shift exactly once per second of samples for any split into buffers, moves linearly between recalculated values, starts at the requested time, and applies the opposite sign for TX and RX, plus the constant offset.',
 'inputs','all splits of the stream, sampling rates, offsets and start times',
 'A test runs a fixed file with one buffer length; errors appear when a buffer crosses the border of a second.',
 ['src/dsp/doppler.c','src/dsp/sig_source.c'],
 'doppler_process: current_samples, update_interval_samples, current_freq_difference and next_freq_difference')
p('C16','Registry of workers behaves as a list of unique owners',
 'After any sequence of operations the linked list contains exactly the added and not yet removed elements in the order of addition; each element is destroyed exactly once when it is removed by destroy operations and never when it is handed out by remove.',
 'histories','all sequences of add, find, foreach, remove, destroy by id or selector, with all positions of matching elements',
 'Links after removing the first, last, middle, consecutive and all elements need all histories.',
 ['src/linked_list.c','src/tcp_server.c','src/sdr_worker.c'],
 'linked_list_add, linked_list_find, linked_list_foreach, linked_list_remove_by_id, linked_list_destroy_*')
p('C17','File device replays and records samples exactly',
 'RX from a file gives all complete samples of the file in order (also those read before a read error), shifted by the configured offset with continuous phase, then waits until it is stopped; TX to a file appends exactly the samples passed, shifted likewise. A stop requested at any time, before or during waiting, ends the reader, and calls in the wrong direction or with too long input fail without side effects.',
 'inputs and schedules','all file lengths relative to the buffer, offsets, sequences of calls and moments of the stop',
 'Lengths around the buffer and the moment of stop are not enumerated.',
 ['src/sdr/file_source.c','src/dsp/sig_source.c'],
 'file_source_process_rx, file_source_process_tx, file_source_stop')
p('C18','sdr-server protocol is followed for any segmentation',
 'The request to sdr-server has the documented binary layout with the requested tuning, only a complete positive answer starts the stream, and bytes after the answer are converted to samples independent of how they are split into segments and read timeouts. SHUTDOWN is sent when the session is finished by the modem, the connection is then kept until sdr-server closes it or is silent for the read timeout, and refusals, garbage, timeouts and disconnects are reported as failures without leaks.',
 'inputs and faults','all segmentations and pauses of the answer and the stream, all answers and disconnects',
 'A mock server in tests answers in whole messages.',
 ['src/sdr/sdr_server_client.c','src/sdr/sdr_server_api.h','src/tcp_utils.c'],
 'sdr_server_client_create, sdr_server_client_read_stream, sdr_server_client_stop')
p('C19','Files are complete when the connection is closed',
 'Dump and demodulated files of a client have exactly the data that was processed for this client, contain only whole samples, and are completely written and closed before the server closes its connection. A client whose file can not be written (disk is full) is disconnected or gets a failure, and other clients are not affected.',
 'schedules and faults','all ways to finish a client, all interleavings, failures of each write',
 'Tests look at files much later than the connection was closed.',
 ['src/dsp_worker.c','src/tcp_server.c','src/sdr/file_source.c'],
 'dsp_worker_destroy and tcp_worker teardown order: join, fclose, then close of the socket')
p('C20','PlutoSDR is configured as requested',
 'Before any sample is exchanged the device is configured with exactly the requested frequency, bandwidth, sampling rate, gain and the FIR filter required for the rate (rate below 520834 is refused, decimation 4 below 1041667, 2 below 2083334, none above), DDS tones are disabled for TX, the TX oscillator is powered down for RX without TX and powered up for TX.',
 'inputs and histories','all sampling rates around the thresholds, frequencies with offsets, gains and sequences of opening RX and TX',
 'Order of configuration calls and thresholds are checked for a few values only.',
 ['src/sdr/plutosdr.c','src/tcp_server.c'],
 'plutosdr_setup_fir_filter, plutosdr_configure_streaming_channel, plutosdr_disable_dds')
p('C21','Modulated bits are received; filters pass the signal',
 'For every payload, supported rate, deviation, decimation, buffer split, noise below the design margin and input gain, the bits modulated by the GFSK modulator are received by the FSK demodulator in order, without loss or duplication inside the stream; the low pass filter passes tones below cutoff minus transition and rejects tones above cutoff plus transition; the interpolator of the clock recovery returns values of the sampled signal at the requested fraction.',
 'inputs','all payloads, sampling and baud rates, deviations, decimations, splits, gains, tones and fractional positions',
 'Tests compare against a recorded output for one setting; a wrong sign, tap order or rate shows up for other settings only.',
 ['src/dsp/gfsk_mod.c','src/dsp/fsk_demod.c','src/dsp/lpf.c','src/dsp/lpf_taps.c','src/dsp/gaussian_taps.c','src/dsp/mmse_fir_interpolator.c','src/dsp/clock_recovery_mm.c'],
 'gfsk_mod_process, fsk_demod_process, create_low_pass_filter, mmse_fir_interpolator_process, clock_mm_process')
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
