#!/usr/bin/env python3
"""Writes known_findings.txt. There are no unfixed findings: all defects were repaired in /repo."""
import os
F = [
 ('C01','fa51bf4','queue_put crashed for the queue of size 1 while the only buffer was detached'),
 ('C07','866690b','TX request without fsk_settings crashed the server'),
 ('C07','3a895ca','demod_decimation more than 255 was truncated (256 became 0 and crashed the server)'),
 ('C07','586fda2','TX request with samples per symbol outside of 1..255 crashed the server'),
 ('C09','b59e68b','TX_DATA longer than buffer_size/8 was acknowledged but not transmitted when doppler or offset correction is on'),
 ('C08','3550aad','TX_DATA sent by RX client made its thread spin forever'),
 ('C08','3a57903','body of unsupported or too big message was interpreted as the next message'),
 ('C10','b39f123','memory leak when the request body can not be read'),
 ('C10','6462c92','a thread that was not created was joined, its device was leaked or freed twice'),
 ('C04','d12be46','RX client could be torn down or get data before its chain was initialized, beginning of the stream was lost'),
 ('C06','78bdc66','answer on TX_DATA could be sent before the answer on TX request'),
 ('C05','ada08d6','client was not terminated when its demodulator stopped, reader of the device could hang on its queue'),
 ('C03','63c07c8','new client could join the session that was being destroyed'),
 ('C05','888364c','slow disconnect of one client blocked other clients of the same session'),
 ('C05','3822e63','client not reading its socket could not be disconnected and blocked the stop of the server'),
 ('C02','ef58a39','device was reported as being used to the client connected after the owner was disconnected'),
 ('C19','a01ef5e','TX dump file was not complete after the client is disconnected'),
 ('C03','5463d75','new client could join the session which already lost its device'),
 ('C04','2739355','samples received before the read timeout were dropped'),
 ('C04','16f91f6','partially received sample was dropped and the rest of the stream was misaligned'),
 ('C03','b66d40a','client could get the stream with different sampling rate'),
 ('C10','691edcc','socket leak when sdr-server rejects the request'),
 ('C07','7f879f8','frequencies not representable in the protocol of sdr-server were truncated'),
 ('C13','52d0547','server crashed when plutosdr was used for RX only'),
 ('C10','c8f584a','listening socket was not closed when the server is stopped'),
 ('C13','b0bd707','string setting of the wrong type crashed the server'),
 ('C13','9e068f0','gain configured as integer was silently ignored'),
 ('C13','f2715c4','out of range buffer_size, port and queue_size were silently truncated'),
 ('C14','749426a','fir filter accessed memory out of bounds for short input or decimation bigger than number of taps'),
 ('C14','6c13945','clock recovery produced a symbol twice at the border of buffers and could overflow its buffer'),
 ('C07','0719357','demodulator with less than 1 sample per symbol crashed the server'),
 ('C11','80b40b4','stop signal received while the server is starting was lost'),
 ('C09','939f89a','number of samples per symbol in the modulator could be bigger than in the buffers (rounding to float): crash or dropped data'),
 ('C17','8fc0cef','samples that were not written to the tx file were acknowledged as transmitted'),
 ('C13','cf90f3e','numeric settings of the wrong type became 0 (port 0, gain 0), rx_sdr_server_port and tx_plutosdr_timeout_millis out of range were truncated'),
 ('C20','8157639','transmission via plutosdr with the buffer of one sample never ended'),
 ('C12','5e00932','device that failed to create the context released the context of another device opened at the same time'),
 ('C12','dade697','crash when the iio context has no ad9361-phy'),
 ('C14','3625483','sig_source_process wrote outside of its buffer when the input is longer than the buffer'),
 ('C20','f4deebb','failure to power up the TX oscillator was ignored'),
]
out = '# Format of unfixed findings: "known: property=<id> key=<clause> <what fails>". There are none.\n'
out += ''.join('fixed: property=%s %s %s\n' % f for f in F)
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt'), 'w').write(out)
