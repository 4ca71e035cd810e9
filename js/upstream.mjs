// An upstream server on the loopback network whose answers are described by the address asked for.
import http from 'node:http';

/** what an address asks for: {s: status, t: content type, b: body, d: delay in ms, f: 0 answer, 1 closed without one, 2 broken in the middle, 3 none} */
export const at = (port, page, spec) => `http://127.0.0.1:${port}/a/${page}/${Buffer.from(JSON.stringify({ ...spec, b: spec.b ? Buffer.from(spec.b).toString('base64') : '' })).toString('base64url')}`;

export const startUpstream = async () => {
    const log = new Map(); // page -> requests
    const open = new Set();
    const server = http.createServer({ keepAliveTimeout: 1000, requireHostHeader: false, insecureHTTPParser: true }, (req, res) => {
        const parts = [];
        req.on('data', (d) => parts.push(d));
        req.on('error', () => {});
        req.on('end', () => {
            const m = /^\/a\/([0-9a-z]+)\/([A-Za-z0-9_-]*)/.exec(req.url);
            const raw = [];
            for (let i = 0; i < req.rawHeaders.length; i += 2) raw.push([req.rawHeaders[i], req.rawHeaders[i + 1]]);
            const entry = { method: req.method, url: req.url, raw, body: Buffer.concat(parts) };
            const page = m ? m[1] : '?';
            if (!log.has(page)) log.set(page, []);
            log.get(page).push(entry);
            if (!m) { res.statusCode = 404; res.end(); return; }
            const spec = JSON.parse(Buffer.from(m[2], 'base64url').toString());
            const answer = () => {
                open.delete(res);
                if (spec.f === 1) { req.socket.destroy(); return; }
                res.statusCode = spec.s;
                if (spec.t !== null && spec.t !== undefined) res.setHeader('content-type', spec.t);
                for (const [k, v] of spec.h ?? []) res.appendHeader(k, v);
                let body = Buffer.from(spec.b, 'base64');
                if (spec.r > 1) body = Buffer.alloc(spec.r, body);
                if (spec.f === 2) { res.setHeader('content-length', body.length + 10); res.write(body); setTimeout(() => req.socket.destroy(), 5); return; }
                if (spec.c) { for (let i = 0; i < body.length; i += spec.c) res.write(body.subarray(i, i + spec.c)); res.end(); } else res.end(body);
            };
            if (spec.f === 3) { open.add(res); return; }
            if (spec.d) setTimeout(answer, spec.d); else answer();
        });
    });
    server.on('connection', (s) => { s.setNoDelay(true); s.on('error', () => {}); });
    await new Promise((ok) => server.listen(0, '127.0.0.1', ok));
    return {
        port: server.address().port,
        requests: (page) => log.get(page) ?? [],
        /** forgets a page and drops its unanswered requests */
        forget: (page) => { log.delete(page); },
        close: () => { server.closeAllConnections(); return new Promise((ok) => server.close(ok)); },
    };
};
