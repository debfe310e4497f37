"""Which models, cases and clauses decide which property."""
import json, os
import greq, gbody, ghist, gunit, gfun, gset

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TR = {'req': 'Tr_Request', 'lazy': 'Tr_Lazy', 'dict': 'Tr_Dict', 'handlers': 'Tr_Handlers', 'file': 'Tr_File', 'fun': 'Tr_Fun', 'set': 'Tr_Settings'}

class P:
    def __init__(self, gens, own, what, models=(), assumptions=(), big=()):
        self.gens, self.own, self.what, self._m, self._b = gens, own, what, models, big
        self.assumptions = list(assumptions)
    @property
    def note(self):
        return ('Checked by TLC: %s. The models cover every case within their small constants; the recorded traces of the real library '
                '(Jython, public interface, no hooks) cover the enumerated and seeded cases only. Trusted: TLC, the harness recording '
                'faithfully, and the specification saying what the property says.' % self.what)
    def models(self, tier):
        return [(m[0], m[1], m[2] if len(m) > 2 else {}) for m in list(self._m) + (list(self._b) if tier == 'thorough' else [])]
    def cases(self, ctx):
        return [c for g in self.gens for c in g(ctx)]

def findings(prop):
    fs = json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings'] if os.path.exists(os.path.join(VERIF, 'known_findings.json')) else []
    return [f for f in fs if f['property'] == prop and f['status'] == 'known']
def matches(f, case, verdict):
    """A listed finding is one exact input and the clauses it breaks."""
    strip = lambda c: {k: v for k, v in c.items() if k != 'id'}
    return strip(f['case']) == strip(case) and set(verdict[2]) <= set(f['clauses'])

NA = {}
HEADF = ['snap.method', 'snap.scheme', 'snap.path', 'snap.query', 'snap.proto', 'snap.headers', 'snap.getters', 'snap.ctype', 'snap.weird']
BODYF = ['snap.post', 'mpost.', 'files.']
DATA = ['val.', 'err.', 'args.']
PROPS = {
 'C01': P([greq.c01], HEADF + ['err.head'], 'request heads', [('MC_Head', 'MC_Head_small.cfg')], big=[('MC_Head', 'MC_Head_big.cfg')]),
 'C02': P([greq.c02], DATA, 'bodies read in every way', [('MC_Head', 'MC_Head_small.cfg')], big=[('MC_Head', 'MC_Head_big.cfg')]),
 'C03': P([greq.c03], ['err.', 'snap.'], 'malformed heads', [('MC_Head', 'MC_Head_small.cfg')], big=[('MC_Head', 'MC_Head_big.cfg')]),
 'C04': P([greq.c04], ['snap.host', 'snap.port', 'snap.scheme', 'snap.secure', 'snap.ajax', 'snap.uri', 'snap.fullpath', 'snap.getters', 'err.'], 'authorities and targets', [('MC_Url', 'MC_Url_small.cfg')], big=[('MC_Url', 'MC_Url_big.cfg')]),
 'C05': P([gbody.c05], ['snap.get', 'snap.post', 'snap.weird', 'err.'], 'query strings and urlencoded bodies', [('MC_Query', 'MC_Query_small.cfg')], big=[('MC_Query', 'MC_Query_big.cfg')]),
 'C06': P([gbody.c06], ['err.', 'snap.get', 'snap.post', 'mpost.', 'files.shape'], 'field counts around the limit', [('MC_Limits', 'MC_Limits_small.cfg')], big=[('MC_Limits', 'MC_Limits_big.cfg')]),
 'C07': P([gbody.c07], ['err.', 'val.', 'snap.post', 'mpost.', 'files.shape'], 'sizes around the limit', [('MC_Limits', 'MC_Limits_small.cfg')], big=[('MC_Limits', 'MC_Limits_big.cfg')]),
 'C08': P([gbody.c08], ['err.', 'mpost.', 'files.', 'snap.weird', 'snap.post'], 'multipart bodies', [('MC_Boundary', 'MC_Boundary_small.cfg')], big=[('MC_HeaderValue', 'MC_HeaderValue_small.cfg'), ('MC_Boundary', 'MC_Boundary_big.cfg'), ('MC_Boundary', 'MC_Boundary_lf.cfg')]),
 'C09': P([gbody.c09], ['err.', 'mpost.', 'files.', 'snap.weird', 'snap.post'], 'chunk sizes and fragmentations', [('MC_Boundary', 'MC_Boundary_small.cfg')], big=[('MC_Boundary', 'MC_Boundary_big.cfg'), ('MC_Boundary', 'MC_Boundary_lf.cfg')]),
 'C10': P([gunit.c10], ['raw.', 'new.', 'recv.', 'done.', 'upload.', 'end.', 'order.'], 'chains of handlers and their reactions', [('MC_Handlers', 'MC_Handlers_small.cfg')], big=[('MC_Handlers', 'MC_Handlers_big.cfg')]),
 'C11': P([ghist.c11, gunit.c11d], ['files.', 'err.', 'dir.', 'make.', 'over.', 'file.data', 'name.', 'ask.'], 'upload sizes around the limit', [('MC_File', 'MC_File_small.cfg')], big=[('MC_File', 'MC_File_big.cfg')]),
 'C12': P([ghist.c12, gunit.c12d], ['name.', 'files.name', 'files.shape', 'files.data', 'err.', 'files.place', 'mpost.shape', 'dir.'], 'file names', [('MC_Names', 'MC_Names_small.cfg')], big=[('MC_Names', 'MC_Names_big.cfg')]),
 'C13': P([ghist.c13], ['mpost.data', 'mpost.shape', 'files.data', 'files.size', 'files.shape', 'err.'], 'base64 payloads', [('MC_Base64', 'MC_Base64_small.cfg')], big=[('MC_Base64', 'MC_Base64_big.cfg')]),
 'C14': P([gunit.c14], None, 'call histories of the push-back stream', [('MC_Lazy', 'MC_Lazy_small.cfg')], big=[('MC_Lazy', 'MC_Lazy_big.cfg')]),
 'C15': P([ghist.c15], None, 'call histories of one request', [('MC_Request', 'MC_Request_small.cfg')], big=[('MC_Request', 'MC_Request_big.cfg')]),
 'C16': P([ghist.c16], None, 'interleaved and concurrent requests', [('MC_Request', 'MC_Request_two.cfg')], big=[('MC_Request', 'MC_Request_two_big.cfg')]),
 'C17': P([gunit.c17], None, 'histories of operations on dictionaries', [('MC_Dict', 'MC_Dict_small.cfg')], big=[('MC_Dict', 'MC_Dict_big.cfg')]),
 'C18': P([gunit.c18], None, 'mutating operations on read-only dictionaries and lists', [('MC_Dict', 'MC_Dict_small.cfg')], big=[('MC_Dict', 'MC_Dict_big.cfg')]),
 'C19': P([gunit.c19], None, 'contents, chunk sizes and operations on uploaded files', [('MC_File', 'MC_File_small.cfg')], big=[('MC_File', 'MC_File_big.cfg')]),
 'C20': P([gset.c20], None, 'settings given, upload directories and handler names', [('MC_Settings', 'MC_Settings_small.cfg')], big=[('MC_Settings', 'MC_Settings_big.cfg')]),
 'C21': P([ghist.c21], None, 'failing sources', [('MC_Request', 'MC_Request_small.cfg')]),
 'C22': P([gfun.c22], None, 'URLs, allowed hosts, host patterns', [('MC_Safe', 'MC_Safe_small.cfg')], big=[('MC_Safe', 'MC_Safe_big.cfg')]),
 'C23': P([ghist.c23], ['err.', 'mpost.', 'files.', 'snap.post'], 'arbitrary multipart bodies', [('MC_Boundary', 'MC_Boundary_small.cfg')], big=[('MC_Boundary', 'MC_Boundary_big.cfg'), ('MC_Boundary', 'MC_Boundary_lf.cfg')]),
 'C24': P([gfun.c24], None, 'dictionaries, charsets and query strings', [('MC_Query', 'MC_Query_small.cfg')], big=[('MC_Query', 'MC_Query_big.cfg')]),
 'C25': P([gfun.c25], None, 'texts, bytes, escapes and request paths', [('MC_Uri', 'MC_Uri_small.cfg')], big=[('MC_Uri', 'MC_Uri_big.cfg')]),
 'C26': P([ghist.c26], ['close.', 'dir.', 'files.place', 'err.'], 'closing', [('MC_File', 'MC_File_small.cfg')], big=[('MC_File', 'MC_File_big.cfg')]),
 'C27': P([gfun.c27], None, 'numbers, byte strings, dates and tag lists', [('MC_Codec', 'MC_Codec_small.cfg')], big=[('MC_Codec', 'MC_Codec_big.cfg')]),
 'C28': P([gunit.c28], ['stream.', 'recv.', 'end.err'], 'long files through handlers of small chunk sizes', [('MC_Boundary', 'MC_Boundary_small.cfg')], big=[('MC_Boundary', 'MC_Boundary_big.cfg'), ('MC_Boundary', 'MC_Boundary_lf.cfg')]),
 'C30': P([ghist.c30], None, 'what a caller sets, at every moment of a request', [('MC_Request', 'MC_Request_set.cfg')], big=[('MC_Request', 'MC_Request_set_big.cfg')]),
 'C29': P([gfun.c29], None, 'header values, hosts, entities and parameter strings', [('MC_HeaderValue', 'MC_HeaderValue_small.cfg'), ('MC_Names', 'MC_Names_small.cfg')], big=[('MC_HeaderValue', 'MC_HeaderValue_big.cfg'), ('MC_Names', 'MC_Names_big.cfg')]),
}
