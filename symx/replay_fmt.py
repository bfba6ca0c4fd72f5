def pretty(record):
    out = {}
    for k, v in record.items():
        if v[0] == 'str':
            out[k] = ''.join(map(chr, v[1]))
        elif v[0] == 'bytes':
            out[k] = bytes(v[1])
        else:
            out[k] = v[1]
    return out
