import hashlib
per=bytes(((j*167+(j>>8)*13)>>1)&255 for j in range(65536))
lens=[1000003, 65536*3, (1<<24)+55, (1<<29)-1, (1<<29)+56, (1<<29)+(1<<20)+119, (1<<32)+4093]
res={a:[] for a in('md5','sha1','sha224','sha256')}
for L in lens:
    hs={a:hashlib.new(a) for a in res}
    big=per*256; q,r=divmod(L,len(big))
    for _ in range(q):
        for h in hs.values(): h.update(big)
    for h in hs.values(): h.update(big[:r])
    for a in res: res[a].append(hs[a].digest())
o="/* digests of long periodic streams, computed with Python's hashlib (tools/longdigest.py) */\n#define LONG_LENS %d\n#define LONG_SHORT 3\nstatic const uint64_t long_len[LONG_LENS] = { %s };\nstatic const unsigned char long_digest[4][LONG_LENS][32] = {\n"%(len(lens),', '.join('%dull'%l for l in lens))
for a in res:
    o+='  { '+',\n    '.join('{ '+','.join('0x%02x'%b for b in d)+' }' for d in res[a])+' },\n'
open('/verif/sim/longdigest.h','w').write(o+'};\n')
