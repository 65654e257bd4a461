M(block) M(blockinv) M(stream) M(streamseg) M(modes) M(hash) M(hashlong) M(hashout) M(hashseg)
M(mac) M(macseg) M(ae) M(aeseal) M(pbkdf2) M(pbkdf2long) M(scrypt) M(pkcs7)
M(manyuse) M(manyre) M(manymake) M(manylive) M(manystream) M(manyhash) M(manymac) M(manyae) M(recreate) M(life) M(oneshot) M(interleave) M(threads) M(handover) M(firstuse) M(determinism) MI(builds, init_builds) MI(place, init_place)
M(meta) M(memory) MI(ct, init_ct) M(random)
MI(inline, init_inline) MI(iface, init_iface)
M(streamkey) M(hashsalt) M(mackey) M(kdflong) M(kdfiter) M(kdfblocks) M(scryptwide) M(scryptbig) M(hugemem) M(streamfar) M(hashfar) M(macfar)
M(ilp32probe) M(leak) M(oom) M(pure) M(wipe) M(soft) M(win)
M(hugerandom) M(hugestream) M(hugehash) M(hugemac) M(hugeae) M(streamlong) M(maclong) M(aelong)
#ifdef ORC
MI(orcblock, init_orc) MI(orchash, init_orc) MI(orcstream, init_orc) MI(orcmac, init_orc) MI(orceax, init_orc) MI(orckdf, init_orc) MI(orchmac, init_orc)
#endif
