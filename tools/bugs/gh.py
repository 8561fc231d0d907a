"""gh.py WORK: a stand-in for https://github.com serving WORK/www/<path>; WORK/status/<path> (a number) is the status.
Writes WORK/port and WORK/ca.pem; requested paths are appended to WORK/log."""
import os, socket, ssl, subprocess, sys, threading
w = sys.argv[1]
def run(*a):
    subprocess.run(["openssl"] + list(a), cwd=w, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
ec = ["-newkey", "ec", "-pkeyopt", "ec_paramgen_curve:P-256", "-nodes"]
run("req", "-x509", *ec, "-keyout", "ca.key", "-out", "ca.pem", "-days", "3650", "-subj", "/CN=demo CA")
run("req", *ec, "-keyout", "s.key", "-out", "s.csr", "-subj", "/CN=github.com")
open(w + "/ext", "w").write("subjectAltName=DNS:github.com\n")
run("x509", "-req", "-in", "s.csr", "-CA", "ca.pem", "-CAkey", "ca.key", "-CAcreateserial", "-days", "3650", "-extfile", "ext", "-out", "s.pem")
ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
ctx.load_cert_chain(w + "/s.pem", w + "/s.key")
def serve(c):
    try:
        h = b""
        while b"\r\n\r\n" not in h:
            x = c.recv(4096)
            if not x: return
            h += x
        c.sendall(b"HTTP/1.1 200 OK\r\n\r\n")
        t = ctx.wrap_socket(c, server_side=True)
        b = b""
        while True:
            while b"\r\n\r\n" not in b:
                x = t.recv(4096)
                if not x: return
                b += x
            h, b = b.split(b"\r\n\r\n", 1)
            path = h.split(b" ")[1].decode()
            open(w + "/log", "a").write(path + "\n")
            f, s = w + "/www" + path, w + "/status" + path
            body = open(f, "rb").read() if os.path.isfile(f) else None
            st = open(s).read().strip() if os.path.isfile(s) else "404" if body is None else "200"
            body = body or b""
            t.sendall(b"HTTP/1.1 %s X\r\nContent-Length: %d\r\n\r\n" % (st.encode(), len(body)) + body)
    except OSError:
        pass
    finally:
        c.close()
k = socket.socket(); k.bind(("127.0.0.1", 0)); k.listen(16)
open(w + "/port.tmp", "w").write(str(k.getsockname()[1])); os.rename(w + "/port.tmp", w + "/port")
while True:
    c, _ = k.accept()
    threading.Thread(target=serve, args=(c,), daemon=True).start()
