"""Minimal protobuf encoder for the control protocol (independent of the code under test)."""
import struct

def varint(v):
    v &= (1 << 64) - 1
    out = bytearray()
    while True:
        b = v & 0x7f
        v >>= 7
        if v:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)

def f_int(n, v):
    return varint(n << 3) + varint(v)

def f_bytes(n, b):
    if isinstance(b, str):
        b = b.encode()
    return varint(n << 3 | 2) + varint(len(b)) + b

def doppler(d):
    out = b''
    for t in d.get('tle', []):
        out += f_bytes(1, t)
    return out + f_int(2, d.get('lat', 0)) + f_int(3, d.get('lon', 0)) + f_int(4, d.get('alt', 0))

def file_settings(d):
    return f_bytes(1, d['filename']) + f_int(2, d.get('start', 0))

def rx_request(r):
    out = f_int(1, r['cf']) + f_int(2, r['sf']) + f_int(3, 1 if r.get('dump') else 0) + f_int(4, r.get('off', 0))
    out += f_int(5, r.get('type', 1)) + f_int(6, r['baud']) + f_int(7, r.get('dec', 1)) + f_int(8, r.get('dest', 0))
    if r.get('doppler') is not None:
        out += f_bytes(9, doppler(r['doppler']))
    if r.get('fsk', True):
        out += f_bytes(10, f_int(1, r.get('dev', 5000)) + f_int(2, r.get('tw', 2000)) + f_int(3, r.get('dc', 0)))
    if r.get('file') is not None:
        out += f_bytes(11, file_settings(r['file']))
    return out

def tx_request(r):
    out = f_int(1, r['cf']) + f_int(2, r['sf']) + f_int(3, 1 if r.get('dump') else 0) + f_int(4, r.get('off', 0))
    out += f_int(5, r.get('type', 1)) + f_int(6, r['baud'])
    if r.get('doppler') is not None:
        out += f_bytes(7, doppler(r['doppler']))
    if r.get('fsk', True):
        out += f_bytes(8, f_int(1, r.get('dev', 5000)))
    if r.get('file') is not None:
        out += f_bytes(9, file_settings(r['file']))
    return out

def tx_data(b):
    return f_bytes(1, b)

def message(type_, body=b'', ver=0, length=None):
    return struct.pack('>BBI', ver, type_, len(body) if length is None else length) + body

RX, SHUTDOWN, RESPONSE, PING, TXDATA, TX = 0, 1, 2, 3, 4, 5
