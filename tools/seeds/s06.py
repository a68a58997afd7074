ID='retained-deferred-pound'; PROP='C11'
NEEDS='a retained message that has expired on a topic with sub-topics, then a subscription with # above it'
BREAKS='An expired retained message hides the retained messages of the topics below it from new subscribers.'
EDITS=[('subscriptionstore.cpp','''            if (!rm.hasExpired()) // We can't also erase here, because we're operating under a read lock.
            {
                Publish publish = rm.publish;''','''            if (rm.hasExpired()) // We can't also erase here, because we're operating under a read lock.
                return;

            {
                Publish publish = rm.publish;''')]
DEMO='''
def t(sv):
    a = Client(sv.port); a.login('a'); a.send(publish('a', 'old', 1, 1, retain=True, props=p4(2, 1))); a.want(4); a.send(publish('a/b', 'new', 1, 2, retain=True)); a.want(4); time.sleep(2.1)
    x = Client(sv.port); x.login('x'); x.send(subscribe(1, [('a/#', 0)])); x.want(9); r = [m.payload for m in (x.want(3, 1), x.want(3, 0.5)) if m]; print(r); return r == [b'new']
run(t)
'''
