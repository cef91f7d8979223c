"""Reference implementations written from the OpenID specifications, using only the standard library."""
import base64
import hashlib
import hmac

OPENID2 = 'http://specs.openid.net/auth/2.0'
OPENID11 = 'http://openid.net/signon/1.1'
OPENID10 = 'http://openid.net/signon/1.0'
IDSELECT = 'http://specs.openid.net/auth/2.0/identifier_select'
DEFAULT_MODULUS = int(
    'DCF93A0B883972EC0E19989AC5A2CE310E1D37717E8D9571BB7623731866E61EF75A2E27898B057F9891C2E27A639C3F29B60814581CD3B2CA39'
    '86D2683705577D45C2E7E52DC81C7A171876E5CEA74B1448BFDFAF18828EFD2519F14E45E3826634AF1949E5B535CC829A483B8A76223E5D490A'
    '257F05BDFF16F2FB22C583AB', 16)
DEFAULT_GEN = 2
HASH = {'HMAC-SHA1': hashlib.sha1, 'HMAC-SHA256': hashlib.sha256, 'DH-SHA1': hashlib.sha1, 'DH-SHA256': hashlib.sha256}
SIZE = {'HMAC-SHA1': 20, 'HMAC-SHA256': 32}


def kv(pairs):
    return ''.join('%s:%s\n' % (k, v) for k, v in pairs).encode('utf-8')


def parse_kv(data):
    """Strict parse of direct responses; returns dict."""
    if isinstance(data, bytes):
        data = data.decode('utf-8')
    assert data == '' or data.endswith('\n'), data
    out = {}
    for line in data.split('\n')[:-1]:
        k, v = line.split(':', 1)
        assert k not in out, 'duplicate key %r' % k
        out[k] = v
    return out


def b64(b):
    return base64.b64encode(b).decode('ascii')


def unb64(s):
    return base64.b64decode(s.encode('ascii'), validate=True)


def sign(assoc_type, secret, pairs):
    return hmac.new(secret, kv(pairs), HASH[assoc_type]).digest()


def message_sig(assoc_type, secret, args, prefix='openid.'):
    """Signature over the fields named by the signed list of args."""
    fields = args[prefix + 'signed'].split(',')
    return b64(sign(assoc_type, secret, [(f, args.get(prefix + f, '')) for f in fields]))


def btwoc(n):
    length = n.bit_length() // 8 + 1
    return n.to_bytes(length, 'big')


def unbtwoc(b):
    assert b and b[0] < 128
    return int.from_bytes(b, 'big')


def mac_key_xor(session_type, shared, key):
    digest = HASH[session_type](btwoc(shared)).digest()
    assert len(digest) == len(key)
    return bytes(a ^ b for a, b in zip(digest, key))
