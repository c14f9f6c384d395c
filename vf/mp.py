"""multipart/form-data built from parts (independent of the repository)."""


def legal(boundary, parts):
    tok = b'\r\n--' + boundary
    for h, d in parts:
        if (d + tok).find(tok) != len(d) or tok in h or b'\r\n\r\n' in h:
            return False
        # a delimiter must not be completed by the header end either
        if (b'\r\n\r\n' + d + tok).find(tok) != len(d) + 4:
            return False
    return True


def build(boundary, parts, lead=b'', epilogue=b''):
    """-> (body, expected markup [[name,(start,end)],…])"""
    out = lead + b'--' + boundary
    marks = [['data', (0, len(lead) - 2 if lead else 0)]]
    marks[0][1] = (0, 0)
    for h, d in parts:
        out += b'\r\n'
        s = len(out)
        out += h
        marks.append(['headers', (s, len(out))])
        out += b'\r\n\r\n'
        s = len(out)
        out += d
        marks.append(['data', (s, len(out))])
        out += b'\r\n--' + boundary
    out += b'--' + epilogue
    return out, marks


def hdr(name, filename=None, ctype=None, order=0):
    h = b'Content-Disposition: form-data; name="' + name.encode('utf8') + b'"'
    if filename is not None:
        h += b'; filename="' + filename.encode('utf8') + b'"'
    if ctype:
        h = (h + b'\r\nContent-Type: ' + ctype.encode()) if order == 0 else (b'Content-Type: ' + ctype.encode() + b'\r\n' + h)
    return h


def nasty(boundary, rng):
    """data rich in CR, LF, dashes and partial delimiters"""
    tok = b'\r\n--' + boundary
    bits = [b'\r', b'\n', b'\r\n', b'-', b'--', b'x', b'\r\n\r\n', b'\r\n-', b'\r\n--', tok[:-1], tok[1:], tok[2:], tok[:3], b'\n--' + boundary,
            boundary, b'\x00', b'\xff', b'\r' + tok[:-1], tok[: max(1, len(tok) // 2)]]
    return b''.join(rng.choice(bits) for _ in range(rng.randint(0, 6)))


BOUNDARIES = [b'b', b'bnd', b'-', b'--', b'-a-', b'aXaX', b'----WebKit7', b'a' * 20, b'x--', b"'()+_,./:=?"]
