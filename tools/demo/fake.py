#!/usr/bin/env python3
"""A stand-in for the NetsBlox cloud on the loopback interface: fake.py PORTFILE. Logs websocket frames, injects messages."""
import base64, hashlib, json, socketserver, struct, sys, threading, time
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
sent, rpcs, sockets, lock = [], [], [], threading.Lock()
class H(BaseHTTPRequestHandler):
    protocol_version = 'HTTP/1.1'
    def log_message(self, *a): pass
    def out(self, x, code=200):
        b = json.dumps(x).encode()
        self.send_response(code); self.send_header('Content-Type', 'application/json'); self.send_header('Content-Length', str(len(b))); self.end_headers(); self.wfile.write(b)
    def do_GET(self):
        if self.path == '/configuration': return self.out({'servicesHosts': [{'url': f'http://127.0.0.1:{PORT}/services'}]})
        if self.path == '/sent': return self.out(sent)
        if self.path == '/rpcs': return self.out(rpcs)
        if self.path.endswith('/connect'):
            k = self.headers['Sec-WebSocket-Key']
            a = base64.b64encode(hashlib.sha1((k + '258EAFA5-E914-47DA-95CA-C5AB0DC85B11').encode()).digest()).decode()
            self.wfile.write(f'HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: {a}\r\n\r\n'.encode()); self.wfile.flush()
            sockets.append(self.wfile)
            self.close_connection = True
            r = self.rfile
            while True:
                h = r.read(2)
                if len(h) < 2: return
                n = h[1] & 127
                if n == 126: n = struct.unpack('>H', r.read(2))[0]
                elif n == 127: n = struct.unpack('>Q', r.read(8))[0]
                m = r.read(4) if h[1] & 128 else b'\0' * 4
                d = bytes(c ^ m[i % 4] for i, c in enumerate(r.read(n)))
                if h[0] & 15 == 1: sent.append(json.loads(d))
                if h[0] & 15 == 8: return
        return self.out({}, 404)
    def do_POST(self):
        body = self.rfile.read(int(self.headers.get('Content-Length') or 0))
        if self.path == '/projects/': return self.out({'id': 'proj-1', 'roles': {'role-1': {'name': 'myRole'}}})
        if self.path.endswith('/state'): return self.out({})
        if self.path == '/inject':
            for s in sockets:
                h = b'\x81' + (bytes([len(body)]) if len(body) < 126 else b'\x7e' + struct.pack('>H', len(body)))
                with lock: s.write(h + body); s.flush()
            return self.out({})
        rpcs.append([self.path, body.decode('utf8', 'replace')])
        return self.out(f'reply to {self.path.split("?")[0].rsplit("/", 1)[-1]}')
s = ThreadingHTTPServer(('127.0.0.1', 0), H); s.daemon_threads = True
PORT = s.server_address[1]
open(sys.argv[1] + '.tmp', 'w').write(str(PORT))
import os; os.rename(sys.argv[1] + '.tmp', sys.argv[1])
parent = os.getppid()
def watch():
    while os.getppid() == parent: time.sleep(0.2)
    os._exit(0)
threading.Thread(target=watch, daemon=True).start()
s.serve_forever()
