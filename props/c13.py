"""Direct verification (check_authentication) as histories."""
from vf.core import Facet, expect, expect_eq, st
from vf import gen, ref
from vf.env import clock
from vf.stores import ALL_KINDS, Box
from vf.web import OP
from openid.server.server import Server

ASSUMPTIONS = ['an assertion that was checked in a forged form may or may not be verifiable afterwards',
               'the MySQL and PostgreSQL stores run on SQLite behind a stand-in for their drivers, with text for character columns and bytes for binary ones']
SERVER = 'http://op.example/endpoint'
NOW = 1500000000
TAMPER = ['none', 'none', 'none', 'unsigned extra', 'identity', 'return_to', 'response_nonce', 'op_endpoint', 'claimed_id', 'signed less', 'signed more', 'signed order', 'sig', 'sig empty', 'no sig',
          'no signed', 'drop identity', 'ns', 'other handle', 'other sig', 'ext', 'sig case', 'signed empty', 'unknown handle', 'shared handle']
idx = st.integers(0, 5)
op_s = st.one_of(
    st.tuples(st.just('assert'), st.sampled_from(['2', '2', '1', '1.1']), st.sampled_from(['none', 'none', 'unknown', 'shared']), st.integers(0, 2), st.booleans()),
    st.tuples(st.just('assert'), st.just('2'), st.just('none'), st.integers(0, 2), st.booleans()),
    st.tuples(st.just('associate'), st.sampled_from(['HMAC-SHA1', 'HMAC-SHA256'])),
    st.tuples(st.just('check'), idx, st.sampled_from(TAMPER), idx, st.sampled_from([None, None, 'shared', 'private', 'unknown', ''])),
    st.tuples(st.just('check'), idx, st.just('none'), idx, st.none()),
    st.tuples(st.just('forge'), idx, st.booleans(), st.one_of(st.none(), idx, idx), st.sampled_from(['shared', 'shared', 'empty', 'zeros', 'handle'])),
    st.tuples(st.just('advance'), st.sampled_from([0, 1, 3600, 86400 * 13, 'end-1', 'end', 86400 * 15])),
    st.tuples(st.just('cleanup')),
    st.tuples(st.just('restart')),
).map(list)
case = st.fixed_dictionaries({'store': st.sampled_from(ALL_KINDS), 'ops': gen.history(op_s, 24)})


def check(ctx, case):
    clock.set(NOW)
    lifetime = [None]
    made, shared = [], []
    outcomes = set()
    with Box(case['store']) as box:
        server = Server(box.store, SERVER)
        op = OP(box.store, SERVER, server)

        def alive(rec):
            return int(clock.time()) < rec['made'] + lifetime[0]

        def associate(atype):
            got = ref.parse_kv(op.respond({'openid.mode': 'associate', 'openid.ns': ref.OPENID2, 'openid.assoc_type': atype, 'openid.session_type': 'no-encryption'})[1])
            lifetime[0] = int(got['expires_in'])
            expect(ref.unb64(got['mac_key']) not in [s['key'] for s in shared], 'two associations with one key')
            expect(got['assoc_handle'] not in [s['handle'] for s in shared], 'two associations with one handle')
            shared.append({'handle': got['assoc_handle'], 'key': ref.unb64(got['mac_key']), 'type': atype, 'made': int(clock.time())})

        def ask(args):
            code, body = op.respond(dict(args, **{'openid.mode': 'check_authentication'}))
            if code == 302:
                # an error about a request that names a return_to goes there
                return False, {}
            got = ref.parse_kv(body)
            if 'is_valid' not in got:
                expect_eq(code, 400, 'HTTP status of an error')
                expect('error' in got, 'neither verdict nor error: %r', got)
                return False, got
            expect_eq(code, 200, 'HTTP status')
            expect(got['is_valid'] in ('true', 'false'), 'verdict %r', got['is_valid'])
            return got['is_valid'] == 'true', got

        associate('HMAC-SHA1')
        for o in case['ops']:
            if o[0] == 'advance':
                if o[1] == 'end' or o[1] == 'end-1':
                    target = (made or shared)[-1]['made'] + lifetime[0] - (o[1] == 'end-1')
                    clock.advance(max(0, target - clock.time()))
                else:
                    clock.advance(o[1])
            elif o[0] == 'cleanup':
                box.store.cleanup()
            elif o[0] == 'restart':
                box.reopen()
                server = Server(box.store, SERVER)
                op = OP(box.store, SERVER, server)
            elif o[0] == 'associate':
                associate(o[1])
            elif o[0] == 'assert':
                q = {'openid.mode': 'checkid_setup', 'openid.return_to': 'http://rp.example/back', 'openid.identity': 'http://user%d.example/' % o[3]}
                if o[1] == '2' and o[3] == 2:
                    # an assertion about nobody, for the sake of its extensions
                    del q['openid.identity']
                    q['openid.ns'] = ref.OPENID2
                elif o[1] == '2':
                    q.update({'openid.ns': ref.OPENID2, 'openid.claimed_id': q['openid.identity']})
                elif o[1] == '1.1':
                    q['openid.ns'] = ref.OPENID11
                rec = None
                if o[2] == 'unknown':
                    q['openid.assoc_handle'] = 'nosuchhandle'
                elif o[2] == 'shared':
                    rec = shared[o[3] % len(shared)]
                    q['openid.assoc_handle'] = rec['handle']
                request = server.decodeRequest(q)
                response = request.answer(True, server_url=SERVER)
                if o[4]:
                    response.fields.namespaces.addAlias('http://example.com/ext', 'ext')
                    response.fields.setArg('http://example.com/ext', 'a', 'value')
                args = op.redirect_args(server.encodeResponse(response))[1]
                for k in ('assoc_handle', 'signed', 'sig'):
                    expect('openid.' + k in args, 'a positive answer is not signed')
                private = not (rec is not None and alive(rec))
                if not private:
                    # checking assertions must not take the shared association away
                    expect_eq(args['openid.assoc_handle'], rec['handle'], 'handle that signs')
                    expect_eq(args['openid.sig'], ref.message_sig(rec['type'], rec['key'], args), 'signature with the shared key')
                made.append({'args': args, 'private': private, 'state': 'fresh', 'made': int(clock.time())})
            elif o[0] == 'forge':
                # whoever has set up an association knows its key, but it must not count for direct verification
                rec, target = shared[o[1] % len(shared)], None
                handle, key = rec['handle'], rec['key']
                if o[3] is not None and made:
                    # the handle of an assertion that the provider made for the attacker
                    target = made[o[3] % len(made)]
                    handle = target['args']['openid.assoc_handle']
                if target is not None and target['private']:
                    key = {'shared': key, 'empty': b'', 'zeros': bytes(len(key)), 'handle': handle.encode()}[o[4]]
                else:
                    target = None
                args = {'openid.ns': ref.OPENID2, 'openid.mode': 'id_res', 'openid.identity': 'http://victim.example/', 'openid.claimed_id': 'http://victim.example/',
                        'openid.return_to': 'http://rp.example/', 'openid.op_endpoint': SERVER, 'openid.response_nonce': '2017-07-14T02:40:00Zabc', 'openid.assoc_handle': handle,
                        'openid.signed': 'assoc_handle,claimed_id,identity,mode,op_endpoint,response_nonce,return_to'}
                if o[2]:
                    del args['openid.ns']
                for atype in [rec['type'] if target is None else 'HMAC-SHA1' if len(target['args']['openid.sig']) == 28 else 'HMAC-SHA256']:
                    args['openid.sig'] = ref.message_sig(atype, key, args)
                    valid, _ = ask(args)
                    expect(not valid, 'a message signed with a key of the attacker (%s) is called valid under the handle %s', o[4], handle)
                if target is not None and target['state'] == 'fresh':
                    target['state'] = 'touched'
                outcomes.add('forged' if target is None else 'forged, private handle')
            elif made:
                rec = made[o[1] % len(made)]
                other = made[o[3] % len(made)]
                args = dict(rec['args'])
                t = o[2]
                handle_rec = rec
                genuine = True
                signed = args['openid.signed'].split(',')
                if t == 'unsigned extra':
                    args['openid.something'] = 'else'
                    args['foo'] = 'bar'
                elif t in ('identity', 'return_to', 'response_nonce', 'op_endpoint', 'claimed_id'):
                    args['openid.' + t] = args.get('openid.' + t, '') + 'x'
                    genuine = t not in signed
                elif t == 'signed less':
                    args['openid.signed'] = ','.join(s for s in signed if s != 'identity')
                    genuine = 'identity' not in signed
                elif t == 'signed more':
                    args['openid.signed'] = ','.join(signed + ['foo'])
                    genuine = False
                elif t == 'signed order':
                    args['openid.signed'] = ','.join(signed[::-1])
                    genuine = False
                elif t == 'sig':
                    args['openid.sig'] = ('A' if args['openid.sig'][0] != 'A' else 'B') + args['openid.sig'][1:]
                    genuine = False
                elif t == 'sig case':
                    args['openid.sig'] = args['openid.sig'].swapcase()
                    genuine = args['openid.sig'] == rec['args']['openid.sig']
                elif t == 'sig empty':
                    args['openid.sig'] = ''
                    genuine = False
                elif t == 'no sig':
                    del args['openid.sig']
                    genuine = False
                elif t == 'no signed':
                    del args['openid.signed']
                    genuine = False
                elif t == 'signed empty':
                    args['openid.signed'] = ''
                    genuine = False
                elif t == 'drop identity':
                    genuine = args.pop('openid.identity', None) is None
                elif t == 'ns':
                    if 'openid.ns' in args:
                        del args['openid.ns']
                        genuine = 'ns' not in signed
                    else:
                        args['openid.ns'] = ref.OPENID2
                        genuine = 'ns' not in signed
                elif t == 'ext':
                    if 'openid.ext.a' in args:
                        args['openid.ext.a'] += '!'
                        genuine = False
                elif t == 'other handle':
                    genuine = args['openid.assoc_handle'] == other['args']['openid.assoc_handle']
                    args['openid.assoc_handle'] = other['args']['openid.assoc_handle']
                    handle_rec = other
                elif t == 'other sig':
                    genuine = args['openid.sig'] == other['args']['openid.sig']
                    args['openid.sig'] = other['args']['openid.sig']
                elif t == 'unknown handle':
                    args['openid.assoc_handle'] = 'nosuchhandle'
                    genuine, handle_rec = False, None
                elif t == 'shared handle':
                    genuine = args['openid.assoc_handle'] == shared[0]['handle']
                    args['openid.assoc_handle'] = shared[0]['handle']
                    handle_rec = None if not genuine else rec
                ih = o[4]
                sent_ih = args.pop('openid.invalidate_handle', None)
                if sent_ih is not None and 'invalidate_handle' in signed:
                    args['openid.invalidate_handle'] = sent_ih
                    ih = None
                else:
                    sent_ih = None
                    if ih is not None:
                        args['openid.invalidate_handle'] = {'shared': shared[o[3] % len(shared)]['handle'], 'private': other['args']['openid.assoc_handle'] if other['private'] else 'zz',
                                                            'unknown': 'zzz', '': ''}[ih]
                        sent_ih = args['openid.invalidate_handle']
                valid, got = ask(args)
                possible = genuine and rec['private'] and alive(rec)
                if possible and rec['state'] == 'fresh':
                    expect(valid, 'a genuine assertion is called invalid (%s)', t)
                    outcomes.add('valid')
                elif possible and rec['state'] == 'touched':
                    pass
                else:
                    expect(not valid, 'assertion called valid: tampering %r, genuine %s, private %s, state %s, expired %s', t, genuine, rec['private'], rec['state'], not alive(rec))
                    outcomes.add('invalid: ' + ('tampered' if not genuine else 'not private' if not rec['private'] else rec['state'] if rec['state'] != 'fresh' else 'expired'))
                if 'is_valid' in got:
                    if handle_rec is not None:
                        if genuine:
                            handle_rec['state'] = 'used'
                        elif handle_rec['state'] == 'fresh':
                            handle_rec['state'] = 'touched'
                    if sent_ih:
                        live = [s['handle'] for s in shared if alive(s)]
                        expect_eq(got.get('invalidate_handle'), None if sent_ih in live else sent_ih, 'invalidate_handle in the verdict')
                    else:
                        expect('invalidate_handle' not in got, 'unasked invalidate_handle')
                elif handle_rec is not None and handle_rec['state'] == 'fresh':
                    handle_rec['state'] = 'touched'
    for x in outcomes:
        ctx.label(x)
    ctx.label(case['store'])
    ctx.nt('valid' in outcomes and len(outcomes) > 1)


FACETS = [Facet('history', case, check, 3200, rule='a genuine assertion is confirmed and something else is refused')]
