## Contracts on crates/volaris-tools
@dropuse std::fmt crate::utils::test std::cell::RefCell std::fmt::Write

## ------------------------------------------------------------------ key
@bcast tools::key broadcast use {crate::stubs::model::group_model, crate::stubs::aead::group_aead, crate::corecrypto::header::same_hdr_eq};
@mod tools::key
pub open spec fn slots_ok(s: Seq<Keyslot>, a: Algorithm) -> bool { forall|i: int| 0 <= i < svs(s).len() ==> (#[trigger] svs(s)[i]).nonce.len() == nonce_len(alg_of(a)) }
/// every slot's hash can be computed for this key
pub open spec fn hashable(s: Seq<SlotV>, pw: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> kdf((#[trigger] s[i]).alg, pw, s[i].salt) is Some }
/// the header of a V5 file, if the key opens one of its slots
pub open spec fn opened(b: Seq<u8>, pw: Seq<u8>) -> Option<(HdrV, int)> {
    match parse(b) { None => None, Some(h) => if h.version is V5 { match which(h, pw) { None => None, Some(i) => Some((h, i)) } } else { None } }
}
/// the key operations could not work for reasons of size: such a key cannot be hashed with Argon2
pub open spec fn unhashable(pw: Seq<u8>) -> bool { pw.len() > 0xffff_ffff }
pub open spec fn set_slots(h: HdrV, s: Seq<SlotV>) -> HdrV { HdrV { slots: Some(s), ..h } }
pub proof fn wf_hashable(h: HdrV, pw: Seq<u8>)
    requires wf(h), h.slots is Some ensures hashable(h.slots.unwrap(), pw) || unhashable(pw)
{ assert forall|i: int| 0 <= i < h.slots.unwrap().len() && !unhashable(pw) implies kdf((#[trigger] h.slots.unwrap()[i]).alg, pw, h.slots.unwrap()[i].salt) is Some by { assert(wf_slot(h.alg, h.slots.unwrap()[i])); } }
/// a new slot, sealed under a key
pub open spec fn fresh_slot(a: Algorithm, s: SlotV, alg: HashingAlgorithm, pw: Seq<u8>, mk: Seq<u8>) -> bool {
    s.alg == alg && drawn(s.salt) && drawn(s.nonce) && wf_slot(a, s) && slot_open(a, s, pw) == Some(mk)
}
/// first_open on a sequence with a suffix added / with one element replaced / removed
pub proof fn first_open_ext(a: Algorithm, s: Seq<SlotV>, t: Seq<SlotV>, pw: Seq<u8>, n: nat)
    requires n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> s[i] == t[i]
    ensures first_open(a, s, pw, n) == first_open(a, t, pw, n)
    decreases n
{ if n > 0 { first_open_ext(a, s, t, pw, (n - 1) as nat); } }
/// C08: rewriting the header of a file with one more slot
pub proof fn add_keeps(d: Seq<u8>, h: HdrV, s: SlotV, pw: Seq<u8>, mk: Seq<u8>, old_pw: Seq<u8>)
    requires parse(d) == Some(h), h.version is V5, h.slots.unwrap().len() < 4, wf_slot(h.alg, s), slot_open(h.alg, s, pw) == Some(mk),
        unlock(h, old_pw) == Some(mk)
    ensures ({
        let h2 = set_slots(h, h.slots.unwrap().push(s));
        let d2 = splice(d, 0, ser(h2));
        &&& d2.len() == d.len() && d2.skip(416) == d.skip(416)
        &&& parse(d2) == Some(h2)
        &&& h2.slots.unwrap().len() == h.slots.unwrap().len() + 1 && h2.slots.unwrap().take(h.slots.unwrap().len() as int) == h.slots.unwrap()
        &&& unlock(h2, old_pw) == Some(mk)
        &&& aad_enc(h2) == aad_enc(h)
        // the new key works, with the same master key unless it already opened an older slot
        &&& (unlock(h, pw) is None ==> unlock(h2, pw) == Some(mk))
    })
{
    let h2 = set_slots(h, h.slots.unwrap().push(s)); let d2 = splice(d, 0, ser(h2)); let ss = h.slots.unwrap(); let s2 = h2.slots.unwrap();
    parse_wf(d);
    assert(h.salt == Some(zeros(16)));
    assert forall|i: int| 0 <= i < s2.len() implies #[trigger] wf_slot(h.alg, s2[i]) by { if i < ss.len() { assert(wf_slot(h.alg, ss[i])); } }
    assert(writable(h2));
    parse_ser(h2, d.skip(416));
    assert(d2 =~= ser(h2) + d.skip(416));
    assert(d2.skip(416) =~= d.skip(416));
    assert(s2.take(ss.len() as int) =~= ss);
    first_open_ext(h.alg, ss, s2, old_pw, ss.len()); first_open_ext(h.alg, ss, s2, pw, ss.len());
    first_open_props(h.alg, ss, old_pw, ss.len()); first_open_props(h.alg, ss, pw, ss.len());
    first_open_mono(h.alg, s2, old_pw, ss.len(), s2.len());
    let w = which(h, old_pw).unwrap();
    assert(s2[w] == ss[w]);
    assert(unlock(h2, old_pw) == Some(mk));
    if unlock(h, pw) is None { assert(first_open(h.alg, s2, pw, ss.len()) is None); assert(s2[ss.len() as int] == s); assert(first_open(h.alg, s2, pw, s2.len()) == Some(ss.len() as int)); }
}
/// C09
pub proof fn change_keeps(d: Seq<u8>, h: HdrV, i: int, s: SlotV, pw: Seq<u8>, mk: Seq<u8>)
    requires parse(d) == Some(h), h.version is V5, 0 <= i < h.slots.unwrap().len(), wf_slot(h.alg, s), slot_open(h.alg, s, pw) == Some(mk)
    ensures ({
        let h2 = set_slots(h, h.slots.unwrap().update(i, s));
        let d2 = splice(d, 0, ser(h2));
        &&& d2.len() == d.len() && d2.skip(416) == d.skip(416)
        &&& parse(d2) == Some(h2)
        &&& aad_enc(h2) == aad_enc(h)
        &&& h2.slots.unwrap().len() == h.slots.unwrap().len() && h2.slots.unwrap()[i] == s
        &&& forall|j: int| 0 <= j < h.slots.unwrap().len() && j != i ==> #[trigger] h2.slots.unwrap()[j] == h.slots.unwrap()[j]
        &&& unlock(h2, pw) is Some
    })
{
    let h2 = set_slots(h, h.slots.unwrap().update(i, s)); let d2 = splice(d, 0, ser(h2)); let ss = h.slots.unwrap(); let s2 = h2.slots.unwrap();
    parse_wf(d);
    assert forall|j: int| 0 <= j < s2.len() implies #[trigger] wf_slot(h.alg, s2[j]) by { if j != i { assert(wf_slot(h.alg, ss[j])); } }
    assert(writable(h2));
    parse_ser(h2, d.skip(416));
    assert(d2 =~= ser(h2) + d.skip(416));
    assert(d2.skip(416) =~= d.skip(416));
    first_open_props(h.alg, s2, pw, s2.len());
}
/// C10
pub proof fn delete_keeps(d: Seq<u8>, h: HdrV, i: int)
    requires parse(d) == Some(h), h.version is V5, 0 <= i < h.slots.unwrap().len()
    ensures ({
        let h2 = set_slots(h, h.slots.unwrap().remove(i));
        let d2 = splice(d, 0, ser(h2));
        &&& d2.len() == d.len() && d2.skip(416) == d.skip(416)
        &&& parse(d2) == Some(h2)
        &&& aad_enc(h2) == aad_enc(h)
        &&& h2.slots.unwrap() == h.slots.unwrap().take(i) + h.slots.unwrap().skip(i + 1)
    })
{
    let h2 = set_slots(h, h.slots.unwrap().remove(i)); let d2 = splice(d, 0, ser(h2)); let ss = h.slots.unwrap(); let s2 = h2.slots.unwrap();
    parse_wf(d);
    assert(s2 =~= ss.take(i) + ss.skip(i + 1));
    assert forall|j: int| 0 <= j < s2.len() implies #[trigger] wf_slot(h.alg, s2[j]) by { if j < i { assert(wf_slot(h.alg, ss[j])); } else { assert(wf_slot(h.alg, ss[j + 1])); } }
    assert(writable(h2));
    parse_ser(h2, d.skip(416));
    assert(d2 =~= ser(h2) + d.skip(416));
    assert(d2.skip(416) =~= d.skip(416));
}
/// the i-th slot was replaced by s, in the header and nowhere else
pub open spec fn replaced(h: HdrV, i: int, s: SlotV, alg: HashingAlgorithm, pw: Seq<u8>, mk: Seq<u8>, d0: Seq<u8>, p: nat, d1: Seq<u8>) -> bool {
    fresh_slot(h.alg, s, alg, pw, mk) && d1 == rewritten(d0, p, set_slots(h, h.slots.unwrap().update(i, s)))
}
pub open spec fn appended(h: HdrV, s: SlotV, alg: HashingAlgorithm, pw: Seq<u8>, mk: Seq<u8>, d0: Seq<u8>, p: nat, d1: Seq<u8>) -> bool {
    fresh_slot(h.alg, s, alg, pw, mk) && d1 == rewritten(d0, p, set_slots(h, h.slots.unwrap().push(s)))
}
/// the file after rewriting its header where it was read
pub open spec fn rewritten(d: Seq<u8>, p: nat, h: HdrV) -> Seq<u8> { splice(d, p, ser(h)) }

pub open spec fn some_(i: Option<usize>) -> Option<usize> { i }

@fn tools::key::decrypt_v5_master_key_with_index
@params keyslots raw_key_old algorithm
@spec
    requires slots_ok(keyslots@, *algorithm)
    ensures ({ let s = svs(keyslots@); let w = first_open(*algorithm, s, raw_key_old.data@, s.len());
      match r {
        Ok((k, i)) => w == Some(i as int) && i < s.len() && slot_open(*algorithm, s[i as int], raw_key_old.data@) == Some(k.data@),
        Err(_) => w is None || !hashable(s, raw_key_old.data@),
      } })
@loop 0
    invariant_except_break
        some_(index) is None,
        first_open(*algorithm, svs(keyslots@), raw_key_old.data@, it__0 as nat) is None,
    invariant it__0 <= v__0@.len(), v__0@ == keyslots@, slots_ok(keyslots@, *algorithm),
    ensures
        match some_(index) {
            None => first_open(*algorithm, svs(keyslots@), raw_key_old.data@, keyslots@.len()) is None,
            Some(i) => i < keyslots@.len() && first_open(*algorithm, svs(keyslots@), raw_key_old.data@, keyslots@.len()) == Some(i as int)
                && slot_open(*algorithm, svs(keyslots@)[i as int], raw_key_old.data@) == Some(master_key@),
        },
    decreases v__0@.len() - it__0
@loop 0 begin
    let ghost n = it__0;
    proof {
        let s = svs(keyslots@);
        assert(s[n as int] == keyslots@[n as int].sv());
        if first_open(*algorithm, s, raw_key_old.data@, (n + 1) as nat) is Some { first_open_mono(*algorithm, s, raw_key_old.data@, (n + 1) as nat, s.len()); }
    }

@fn tools::key::encrypt_master_key
@params master_key key_new nonce algorithm
@spec
    requires nonce@.len() == nonce_len(alg_of(*algorithm))
    ensures match r { Ok(v) => v@ == seal(alg_of(*algorithm), key_new.data@, nonce@, Seq::empty(), master_key.data@), Err(_) => false }

@bcast tools::key::add broadcast use {crate::stubs::model::group_model, crate::stubs::aead::group_aead, crate::corecrypto::header::same_hdr_eq};
@fn tools::key::add::execute
@params req
@spec
    ensures ({
      let b = from(old(req.handle).data(), old(req.handle).pos());
      let o = opened(b, req.raw_key_old.data@);
      &&& final(req.handle).faulty() == old(req.handle).faulty() && final(req.handle).id() == old(req.handle).id()
      &&& match r {
        Ok(_) => o matches Some((h, i)) && h.slots.unwrap().len() < 4 && exists|s: SlotV| #[trigger] appended(h, s, req.hash_algorithm, req.raw_key_new.data@, unlock(h, req.raw_key_old.data@).unwrap(),
                old(req.handle).data(), old(req.handle).pos(), final(req.handle).data()),
        Err(_) => old(req.handle).faulty() || (final(req.handle).data() == old(req.handle).data() && final(req.handle).log() == old(req.handle).log()
            && (o is None || o.unwrap().0.slots.unwrap().len() >= 4 || unhashable(req.raw_key_old.data@) || unhashable(req.raw_key_new.data@) || !known(req.hash_algorithm))),
      }
    })
@start
    let ghost b = from(old(req.handle).data(), old(req.handle).pos());
    proof { parse_wf(b); if parse(b) is Some && parse(b).unwrap().slots is Some { wf_hashable(parse(b).unwrap(), req.raw_key_old.data@);
        assert forall|i: int| 0 <= i < parse(b).unwrap().slots.unwrap().len() implies wf_slot(parse(b).unwrap().alg, #[trigger] parse(b).unwrap().slots.unwrap()[i]) by {} } }
@after keyslots.push($e_x);
    proof { let h = parse(b).unwrap(); assert(svs(keyslots@) =~= h.slots.unwrap().push(keyslots@.last().sv())); }
    let ghost keyslots0_ = keyslots;

@after let header_new = Header $t_x;
    proof { let h = parse(b).unwrap(); let s = keyslots0_@.last().sv();
      assert(header_new.v() == set_slots(h, h.slots.unwrap().push(s)));
      assert(wf_slot(h.alg, s)); }
@before Ok(())
    proof { let h = parse(b).unwrap();
      assert(appended(h, keyslots0_@.last().sv(), req.hash_algorithm, req.raw_key_new.data@, unlock(h, req.raw_key_old.data@).unwrap(),
                old(req.handle).data(), old(req.handle).pos(), req.handle.data())); }

@bcast tools::key::change broadcast use {crate::stubs::model::group_model, crate::stubs::aead::group_aead, crate::corecrypto::header::same_hdr_eq};
@fn tools::key::change::execute
@params req
@spec
    ensures ({
      let b = from(old(req.handle).data(), old(req.handle).pos());
      let o = opened(b, req.raw_key_old.data@);
      &&& final(req.handle).faulty() == old(req.handle).faulty() && final(req.handle).id() == old(req.handle).id()
      &&& match r {
        Ok(_) => o matches Some((h, i)) && exists|s: SlotV| #[trigger] replaced(h, i, s, req.hash_algorithm, req.raw_key_new.data@, unlock(h, req.raw_key_old.data@).unwrap(),
                old(req.handle).data(), old(req.handle).pos(), final(req.handle).data()),
        Err(_) => old(req.handle).faulty() || (final(req.handle).data() == old(req.handle).data() && final(req.handle).log() == old(req.handle).log()
            && (o is None || unhashable(req.raw_key_old.data@) || unhashable(req.raw_key_new.data@) || !known(req.hash_algorithm))),
      }
    })
@start
    let ghost b = from(old(req.handle).data(), old(req.handle).pos());
    proof { parse_wf(b); if parse(b) is Some && parse(b).unwrap().slots is Some { wf_hashable(parse(b).unwrap(), req.raw_key_old.data@);
        assert forall|i: int| 0 <= i < parse(b).unwrap().slots.unwrap().len() implies wf_slot(parse(b).unwrap().alg, #[trigger] parse(b).unwrap().slots.unwrap()[i]) by {} } }
@after keyslots[index] = Keyslot $t_x;
    proof { let h = parse(b).unwrap(); assert(svs(keyslots@) =~= h.slots.unwrap().update(index as int, keyslots@[index as int].sv())); }
@after let header_new = Header $t_x;
    proof { let h = parse(b).unwrap();
      let s = header_new.v().slots.unwrap()[index as int];
      assert(header_new.v() == set_slots(h, h.slots.unwrap().update(index as int, s)));
      assert(s.alg == req.hash_algorithm); assert(wf_slot(h.alg, s)); assert(slot_open(h.alg, s, req.raw_key_new.data@) == unlock(h, req.raw_key_old.data@));
      assert(fresh_slot(h.alg, s, req.hash_algorithm, req.raw_key_new.data@, unlock(h, req.raw_key_old.data@).unwrap()));
    }
@before Ok(())
    proof { let h = parse(b).unwrap(); 
      let o = opened(b, req.raw_key_old.data@); assert(o is Some); let (h_, i_) = o.unwrap(); assert(h_ == h && i_ == index);
      assert(replaced(h, i_, header_new.v().slots.unwrap()[index as int], req.hash_algorithm, req.raw_key_new.data@, unlock(h, req.raw_key_old.data@).unwrap(),
                old(req.handle).data(), old(req.handle).pos(), req.handle.data())); }

@bcast tools::key::delete broadcast use {crate::stubs::model::group_model, crate::stubs::aead::group_aead, crate::corecrypto::header::same_hdr_eq};
@fn tools::key::delete::execute
@params req
@spec
    ensures ({
      let b = from(old(req.handle).data(), old(req.handle).pos());
      let o = opened(b, req.raw_key_old.data@);
      &&& final(req.handle).faulty() == old(req.handle).faulty() && final(req.handle).id() == old(req.handle).id()
      &&& match r {
        Ok(_) => o matches Some((h, i)) && final(req.handle).data() == rewritten(old(req.handle).data(), old(req.handle).pos(), set_slots(h, h.slots.unwrap().remove(i))),
        Err(_) => old(req.handle).faulty() || (final(req.handle).data() == old(req.handle).data() && final(req.handle).log() == old(req.handle).log()
            && (o is None || unhashable(req.raw_key_old.data@))),
      }
    })
@start
    let ghost b = from(old(req.handle).data(), old(req.handle).pos());
    proof { parse_wf(b); if parse(b) is Some && parse(b).unwrap().slots is Some { wf_hashable(parse(b).unwrap(), req.raw_key_old.data@);
        assert forall|i: int| 0 <= i < parse(b).unwrap().slots.unwrap().len() implies wf_slot(parse(b).unwrap().alg, #[trigger] parse(b).unwrap().slots.unwrap()[i]) by {} } }
@after keyslots.remove(index);
    proof { let h = parse(b).unwrap(); assert(svs(keyslots@) =~= h.slots.unwrap().remove(index as int)); }

@bcast tools::key::verify broadcast use {crate::stubs::model::group_model, crate::stubs::aead::group_aead, crate::corecrypto::header::same_hdr_eq};
@fn tools::key::verify::execute
@params req
@spec
    ensures ({
      let b = from(old(req.handle).data(), old(req.handle).pos());
      let o = opened(b, req.raw_key.data@);
      &&& same_but_pos(old(req.handle), final(req.handle))
      &&& match r { Ok(_) => o is Some, Err(_) => old(req.handle).faulty() || o is None || unhashable(req.raw_key.data@) }
    })
@start
    let ghost b = from(old(req.handle).data(), old(req.handle).pos());
    proof { parse_wf(b); if parse(b) is Some && parse(b).unwrap().slots is Some { wf_hashable(parse(b).unwrap(), req.raw_key.data@);
        assert forall|i: int| 0 <= i < parse(b).unwrap().slots.unwrap().len() implies wf_slot(parse(b).unwrap().alg, #[trigger] parse(b).unwrap().slots.unwrap()[i]) by {} } }

## ------------------------------------------------------------------ header
@mod tools::header
/// dumping, stripping and restoring
pub proof fn strip_restore(h: HdrV, tail: Seq<u8>)
    requires writable(h)
    ensures ({
        let d = ser(h) + tail; let n = hsize(h.version);
        let s = splice(d, 0, zeros(n));
        &&& parse(d) == Some(norm(h)) && ser(norm(h)) == ser(h)
        &&& s.len() == d.len() && s.skip(n as int) == tail && all_zero(s.take(n as int))
        &&& splice(s, 0, ser(h)) == d
        &&& parse(ser(h)) == Some(norm(h))
    })
{
    parse_ser(h, tail); parse_ser(h, Seq::empty()); ser_len(h); assert(ser(h) + Seq::<u8>::empty() =~= ser(h));
    let d = ser(h) + tail; let n = hsize(h.version); let s = splice(d, 0, zeros(n));
    assert(s.skip(n as int) =~= tail);
    assert(splice(s, 0, ser(h)) =~= d);
    assert(ser(norm(h)) =~= ser(h));
}
@bcast tools::header::dump broadcast use {crate::stubs::model::group_model, crate::stubs::aead::group_aead, crate::corecrypto::header::same_hdr_eq};
@fn tools::header::dump::execute
@params req
@spec
    ensures ({
      let p = parse(from(old(req.reader).data(), old(req.reader).pos()));
      &&& same_but_pos(old(req.reader), final(req.reader))
      &&& final(req.writer).faulty() == old(req.writer).faulty() && final(req.writer).id() == old(req.writer).id()
      &&& match r {
        Ok(_) => p matches Some(h) && !(h.version is V1 || h.version is V2) && wrote(old(req.writer), final(req.writer), ser(h)),
        Err(_) => old(req.reader).faulty() || old(req.writer).faulty() || p is None || p.unwrap().version is V1 || p.unwrap().version is V2,
      }
    })
@start
    proof { parse_wf(from(old(req.reader).data(), old(req.reader).pos())); }

@bcast tools::header::strip broadcast use {crate::stubs::model::group_model, crate::stubs::aead::group_aead, crate::corecrypto::header::same_hdr_eq};
@fn tools::header::strip::execute
@params req
@spec
    ensures ({
      let p = parse(from(old(req.handle).data(), old(req.handle).pos()));
      &&& final(req.handle).faulty() == old(req.handle).faulty() && final(req.handle).id() == old(req.handle).id()
      &&& match r {
        Ok(_) => p matches Some(h) && final(req.handle).data() == splice(old(req.handle).data(), 0, zeros(hsize(h.version))),
        Err(_) => old(req.handle).faulty() || (p is None && final(req.handle).data() == old(req.handle).data()),
      }
    })
@start
    proof { parse_wf(from(old(req.handle).data(), old(req.handle).pos())); }
@after let zeroes = vec!$t_x;
    proof { assert(zeroes@ =~= zeros(zeroes@.len())); }

@bcast tools::header::restore broadcast use {crate::stubs::model::group_model, crate::stubs::aead::group_aead, crate::corecrypto::header::same_hdr_eq};
@fn tools::header::restore::execute
@params req
@spec
    ensures ({
      let p = parse(from(old(req.reader).data(), old(req.reader).pos()));
      let d = old(req.writer).data(); let q = old(req.writer).pos() as int;
      &&& same_but_pos(old(req.reader), final(req.reader))
      &&& final(req.writer).faulty() == old(req.writer).faulty() && final(req.writer).id() == old(req.writer).id()
      &&& match r {
        Ok(_) => p matches Some(h) && q + hsize(h.version) <= d.len() && all_zero(d.subrange(q, q + hsize(h.version)))
            && final(req.writer).data() == splice(d, 0, ser(h)),
        Err(_) => old(req.writer).faulty() || (final(req.writer).data() == d && (old(req.reader).faulty() || p is None || p.unwrap().version is V1 || p.unwrap().version is V2
            || q + hsize(p.unwrap().version) > d.len() || !all_zero(d.subrange(q, q + hsize(p.unwrap().version))))),
      }
    })
@start
    proof { parse_wf(from(old(req.reader).data(), old(req.reader).pos())); }

## ------------------------------------------------------------------ overwrite
@mod tools::overwrite
/// w writes random bytes to lo..n, contiguously and nothing else
pub open spec fn covers(w: Seq<Ev>, n: nat) -> bool decreases w.len() {
    if w.len() == 0 { n == 0 } else { match w.last() {
        Ev::Write(p, b) => drawn(b) && p + b.len() == n && covers(w.drop_last(), p),
        _ => false,
    } }
}
/// k passes of random bytes over 0..n, each followed by a flush
pub open spec fn passes(w: Seq<Ev>, k: nat, n: nat) -> bool decreases k {
    if k == 0 { w.len() == 0 } else {
        exists|m: int| 0 <= m < w.len() && passes(w.take(m), (k - 1) as nat, n) && #[trigger] covers(w.subrange(m, w.len() - 1), n) && w.last() is Flush }
}
/// writing zeros over 0..n, contiguously and nothing else
pub open spec fn covers0(w: Seq<Ev>, n: nat) -> bool decreases w.len() {
    if w.len() == 0 { n == 0 } else { match w.last() {
        Ev::Write(p, b) => all_zero(b) && p + b.len() == n && covers0(w.drop_last(), p),
        _ => false,
    } }
}
pub open spec fn wiped(w: Seq<Ev>, k: int, n: nat) -> bool { wiped_(w, if k > 0 { k as nat } else { 0 }, n) }
pub open spec fn wiped_(w: Seq<Ev>, k: nat, n: nat) -> bool {
    exists|m: int| 0 <= m < w.len() && #[trigger] passes(w.take(m), k, n) && covers0(w.subrange(m, w.len() - 1), n) && w.last() is Flush
}
/// nothing but lo..n was touched, and it is zero now
pub open spec fn zeroed(d: Seq<u8>, n: nat) -> Seq<u8> { splice(d, 0, zeros(n)) }
pub proof fn covers_push(w: Seq<Ev>, n: nat, b: Seq<u8>)
    requires covers(w, n), drawn(b) ensures covers(w.push(Ev::Write(n, b)), n + b.len())
{ assert(w.push(Ev::Write(n, b)).drop_last() =~= w); }
pub proof fn passes_push(w: Seq<Ev>, x: Seq<Ev>, k: nat, n: nat)
    requires passes(w, k, n), covers(x, n) ensures passes((w + x).push(Ev::Flush), k + 1, n)
{
    let z = (w + x).push(Ev::Flush);
    let m = w.len() as int;
    reveal_with_fuel(passes, 3);
    assert(z.take(m) =~= w); assert(z.subrange(m, z.len() - 1) =~= x);
    assert(passes(z.take(m), k, n)); assert(z.last() is Flush); assert(covers(z.subrange(m, z.len() - 1), n));
    assert(0 <= m < z.len() && passes(z.take(m), ((k + 1) - 1) as nat, n) && covers(z.subrange(m, z.len() - 1), n) && z.last() is Flush);
}
pub proof fn wiped_intro(w: Seq<Ev>, x: Seq<Ev>, k: int, n: nat)
    requires passes(w, if k > 0 { k as nat } else { 0 }, n), covers0(x, n) ensures wiped((w + x).push(Ev::Flush), k, n)
{
    let z = (w + x).push(Ev::Flush);
    assert(z.take(w.len() as int) =~= w); assert(z.subrange(w.len() as int, z.len() - 1) =~= x);
}
/// a write inside 0..n does not matter once 0..n is zeroed
pub proof fn zeroed_splice(d: Seq<u8>, p: nat, b: Seq<u8>, n: nat)
    requires p + b.len() <= n ensures zeroed(splice(d, p, b), n) == zeroed(d, n)
{ assert(zeroed(splice(d, p, b), n) =~= zeroed(d, n)); }

/// the sizes from index i on add up to n
pub open spec fn bsum(v: Seq<usize>, i: int, n: nat) -> bool decreases v.len() - i {
    if i >= v.len() || i < 0 { n == 0 } else { v[i] <= n && bsum(v, i + 1, (n - v[i]) as nat) }
}
pub proof fn bsum_step(v: Seq<usize>, i: int, n: nat)
    requires bsum(v, i, n), 0 <= i < v.len(), forall|j: int| 0 <= j < v.len() - 1 ==> v[j] > 0
    ensures v[i] <= n, bsum(v, i + 1, (n - v[i]) as nat), v[i] == 0 ==> n == 0
{ if v[i] == 0 { assert(i == v.len() - 1); assert(bsum(v, i + 1, n)); } }
pub proof fn bsum_blocks(v: Seq<usize>, i: int, b: nat, q: nat, m: nat)
    requires v.len() == q + 1, 0 <= i <= q, forall|j: int| 0 <= j < q ==> v[j] == b, v[q as int] == m
    ensures bsum(v, i, ((q - i) * b + m) as nat)
    decreases q - i
{
    if i < q {
        bsum_blocks(v, i + 1, b, q, m);
        assert((q - i) * b + m == b + (q - (i + 1)) * b + m) by (nonlinear_arith) requires i < q;
        assert((q - (i + 1)) * b >= 0) by (nonlinear_arith) requires i < q, b >= 0;
    } else { assert((q - i) * b == 0) by (nonlinear_arith) requires i == q; assert(bsum(v, i + 1, 0)); }
}

@fn tools::overwrite::execute
@params req
@rw let mut $id_w = req.writer.borrow_mut(); ==> let mut $id_w = req.writer;
@spec
    ensures
      final(req.writer).faulty() == old(req.writer).faulty(), final(req.writer).id() == old(req.writer).id(),
      match r {
        Ok(_) => {
            &&& final(req.writer).data() == zeroed(old(req.writer).data(), req.buf_capacity as nat)
            &&& exists|w: Seq<Ev>| #![trigger wiped(w, req.passes as int, req.buf_capacity as nat)] wiped(w, req.passes as int, req.buf_capacity as nat) && final(req.writer).log() =~= old(req.writer).log() + w
        },
        Err(_) => old(req.writer).faulty(),
      }
@start
    let ghost n = req.buf_capacity as nat;
    let ghost fin = *final(req.writer);
    let ghost d0 = req.writer.data();
    let ghost l0 = req.writer.log();
    let ghost mut w: Seq<Ev> = Seq::empty();
@loops 2
@loop 0
    invariant
        *final(writer) == fin, fin == *final(req.writer),
        n == req.buf_capacity, writer.faulty() == old(req.writer).faulty(), writer.id() == old(req.writer).id(),
        zeroed(writer.data(), n) == zeroed(d0, n), writer.log() =~= l0 + w, end__0 == req.passes,
        0 <= it__0, it__0 <= end__0 || it__0 == 0, passes(w, it__0 as nat, n),
        l0 == old(req.writer).log(), d0 == old(req.writer).data(),
    decreases end__0 - it__0
@loop 0 begin
    let ghost k = it__0 as nat;
    let ghost mut x: Seq<Ev> = Seq::empty();
@loop 1 before
    proof {
        let q = (v__1@.len() - 1) as nat;
        bsum_blocks(v__1@, 0, 512, q, v__1@[q as int] as nat);
        assert(bsum(v__1@, 0, n));
    }
@loop 1
    invariant_except_break
        writer.faulty() == old(req.writer).faulty(), writer.id() == old(req.writer).id(),
        n == req.buf_capacity,
        zeroed(writer.data(), n) == zeroed(d0, n), writer.log() =~= l0 + w + x,
        covers(x, writer.pos()), it__1 <= v__1@.len(),
        bsum(v__1@, it__1 as int, (n - writer.pos()) as nat), writer.pos() <= n,
        forall|i: int| 0 <= i < v__1@.len() - 1 ==> v__1@[i] > 0,
    invariant
        *final(writer) == fin, fin == *final(req.writer),
    ensures
        writer.faulty() == old(req.writer).faulty(), writer.id() == old(req.writer).id(),
        zeroed(writer.data(), n) == zeroed(d0, n), writer.log() =~= l0 + w + x,
        covers(x, writer.pos()), writer.pos() == n,
    decreases v__1@.len() - it__1
@loop 1 begin
    let ghost i0 = it__1 as int;
    let ghost w1 = *writer;
    let ghost x1 = x;
    proof { bsum_step(v__1@, i0, (n - writer.pos()) as nat); }
@after .write_all(&block_buf)$e_r;
    proof {
        x = x1.push(Ev::Write(w1.pos(), block_buf@));
        covers_push(x1, w1.pos(), block_buf@);
        zeroed_splice(w1.data(), w1.pos(), block_buf@, n);
    }
@loop 0 end
    proof {
        passes_push(w, x, k, n);
        w = (w + x).push(Ev::Flush);
    }
@end
    proof {
        if r__ is Ok {
            let z = seq![Ev::Write(0, zeros(n))];
            assert(all_zero(zeros(n)));
            assert(z.drop_last() =~= Seq::empty());
            assert(covers0(z.drop_last(), 0));
            assert(covers0(z, n));
            wiped_intro(w, z, req.passes as int, n);
            let lw = fin.log()[fin.log().len() - 2];
            assert(lw->Write_1 =~= zeros(n));
            assert(fin.log() =~= l0 + (w + z).push(Ev::Flush));
        }
    }

## ------------------------------------------------------------------ hex
@fn tools::utils::hex_encode
@params bytes
@rw write!($e_d, "{byte:02x}").unwrap() ==> crate::stubs::push_hex_(&mut $e_d, *byte)
@rw write!($e_d, "{:02x}", $e_b).unwrap() ==> crate::stubs::push_hex_(&mut $e_d, *$e_b)
@rw $path_d.push_str(&format!("{byte:02x}")) ==> crate::stubs::push_hex_(&mut $path_d, *byte)
@rw $path_d.push_str(&format!("{:02x}", $e_b)) ==> crate::stubs::push_hex_(&mut $path_d, *$e_b)
@forbids format!$t_x
@spec
    ensures r@ == crate::stubs::blake3::hex(bytes@)
@loop 0
    invariant it__0 <= v__0@.len(), v__0@ == bytes@, result@ == crate::stubs::blake3::hex(bytes@.take(it__0 as int)),
    decreases v__0@.len() - it__0
@loop 0 begin
    proof { assert(bytes@.take(it__0 + 1).drop_last() =~= bytes@.take(it__0 as int)); }
@end
    proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }

## ------------------------------------------------------------------ hash
@trait tools::hasher::Hasher
pub trait Hasher: Sized {
    spec fn fed(&self) -> Seq<u8>;
    spec fn digest(s: Seq<u8>) -> Seq<char>;
    fn write(&mut self, input: &[u8])
        ensures final(self).fed() == old(self).fed() + input@;
    fn finish(&mut self) -> (r: String)
        ensures r@ == Self::digest(old(self).fed());
}
@mod tools::hasher
pub open spec fn digest_of<H: Hasher>(h: &H, s: Seq<u8>) -> Seq<char> { H::digest(s) }
@mod impl tools::hasher::Blake3Hasher@Hasher
    open spec fn fed(&self) -> Seq<u8> { self.inner@ }
    open spec fn digest(s: Seq<u8>) -> Seq<char> { crate::stubs::blake3::hex(crate::stubs::blake3::blake3(s)) }
@fn tools::hasher::Blake3Hasher@Default::default
@spec
    ensures r.inner@ == Seq::<u8>::empty()
@fn tools::hasher::Blake3Hasher@Hasher::write
@params self input
@fn tools::hasher::Blake3Hasher@Hasher::finish
@params self
@fn tools::hash::execute
@params hasher req
@attr #[verifier::loop_isolation(false)]
@sigrw mut $id_h: impl Hasher ==> $id_h: impl Hasher
@spec
    ensures match r {
        Ok(h) => h@ == digest_of(&hasher, hasher.fed() + req.reader.data()),
        Err(_) => req.reader.faulty(),
      }
@start
    let mut hasher = hasher;
    let mut req = req;
    let ghost r0 = req.reader;
    let ghost h0 = hasher.fed();
@loop 0 attr
#[verifier::allow_complex_invariants]
@loop 0
    invariant_except_break
        buffer@.len() > 0, same_but_pos(&r0, &req.reader), req.reader.pos() <= r0.data().len(),
        hasher.fed() == h0 + r0.data().take(req.reader.pos() as int),
    ensures
        hasher.fed() == h0 + r0.data(),
    decreases r0.data().len() - req.reader.pos()
@loop 0 begin
    let ghost p0 = req.reader.pos() as int;
@before if read_count == 0
    proof {
        let p1 = p0 + read_count;
        assert(r0.data().take(p0) + buffer@.take(read_count as int) =~= r0.data().take(p1));
        assert(r0.data().take(r0.data().len() as int) =~= r0.data());
        assert((h0 + r0.data().take(p0)) + buffer@.take(read_count as int) =~= h0 + r0.data().take(p1));
    }

## ------------------------------------------------------------------ encrypt
@bcast tools::encrypt broadcast use {crate::stubs::model::group_model, crate::stubs::aead::group_aead, crate::corecrypto::header::same_hdr_eq};
@mod tools::encrypt
/// what an encrypted file consists of
pub open spec fn encrypted(t: HeaderType, ha: HashingAlgorithm, pw: Seq<u8>, content: Seq<u8>, h: HdrV, mk: Seq<u8>, head: Seq<u8>, body: Seq<u8>) -> bool {
    &&& h.version == t.version && h.alg == t.algorithm && h.mode == t.mode && h.mode is StreamMode
    &&& h.nonce.len() == nlen(h.alg, h.mode) && drawn(h.nonce) && h.salt is None
    &&& mk.len() == 32 && drawn(mk)
    &&& h.slots matches Some(s) && s.len() == 1 && fresh_slot(h.alg, s[0], ha, pw, mk)
    &&& head == ser(h)
    &&& body == enc_body(alg_of(h.alg), mk, h.nonce, aad_enc(h), 0, content)
}
/// C01: what encryption writes, decryption returns, with the header attached or on its own, whatever the content
pub proof fn roundtrip(t: HeaderType, ha: HashingAlgorithm, pw: Seq<u8>, content: Seq<u8>, h: HdrV, mk: Seq<u8>, head: Seq<u8>, body: Seq<u8>)
    requires encrypted(t, ha, pw, content, h, mk, head, body), t.version is V5 || (t.version is V4 && ha == HashingAlgorithm::Blake3Balloon(4))
    ensures
      ({ let b = head + body; parse(b) matches Some(g) && g == norm(h) && unlock(g, pw) == Some(mk) && b.skip(hsize(g.version) as int) == body
           && dec_body(alg_of(g.alg), mk, g.nonce, aad_dec(g.version, g.alg, b), 0, body) == (content, true) }),
      parse(head) matches Some(g) && g == norm(h) && unlock(g, pw) == Some(mk)
           && dec_body(alg_of(g.alg), mk, g.nonce, aad_dec(g.version, g.alg, head), 0, body) == (content, true),
{
    assert(writable(h));
    parse_ser(h, body); aad_same(h, body); ser_len(h);
    parse_ser(h, Seq::empty()); aad_same(h, Seq::empty()); assert(head + Seq::<u8>::empty() =~= head);
    dec_enc(alg_of(h.alg), mk, h.nonce, aad_enc(h), 0, content);
    assert((head + body).skip(hsize(h.version) as int) =~= body);
    reveal_with_fuel(first_open, 3);
    assert(first_open(h.alg, h.slots.unwrap(), pw, 1) == Some(0int));
}
@fn tools::encrypt::execute
@params req
@spec
    requires (req.header_type.version is V4 || req.header_type.version is V5 || req.header_type.version is V1 || req.header_type.version is V2)
    ensures
      same_but_pos(old(req.reader), final(req.reader)),
      final(req.writer).faulty() == old(req.writer).faulty(), final(req.writer).id() == old(req.writer).id(),
      match r {
        Ok(_) => exists|h: HdrV, mk: Seq<u8>, head: Seq<u8>, body: Seq<u8>|
            #[trigger] encrypted(req.header_type, req.hashing_algorithm, req.raw_key.data@, old(req.reader).data(), h, mk, head, body)
            && !(h.version is V1 || h.version is V2)
            && if req.header_writer is None { final(req.writer).data() == splice(old(req.writer).data(), 0, head + body) }
               else { final(req.writer).data() == splice(old(req.writer).data(), 0, body)
                   && final(req.header_writer->0).data() == splice(old(req.header_writer->0).data(), 0, head) }
            && final(req.writer).log().len() > 0 && final(req.writer).log().last() == Ev::Flush,
        Err(_) => old(req.reader).faulty() || old(req.writer).faulty() || (req.header_writer is Some && old(req.header_writer->0).faulty())
            || unhashable(req.raw_key.data@) || !known(req.hashing_algorithm) || req.header_type.mode is MemoryMode
            || req.header_type.version is V1 || req.header_type.version is V2 || old(req.reader).data().len() >= BLOCK * MAX_CTR,
      }
@after let header = Header $t_x;
    let ghost hv = header.v();
    let ghost mk = streams.key();
    proof {
        assert(hv.slots.unwrap().len() == 1);
        assert(mk.len() == 32);
        assert(wf_slot(hv.alg, hv.slots.unwrap()[0]));
        assert(slot_open(hv.alg, hv.slots.unwrap()[0], req.raw_key.data@) == Some(mk));
    }
@before Ok(())
    proof {
        let head = ser(hv); let body = enc_body(alg_of(hv.alg), mk, hv.nonce, aad_enc(hv), 0, old(req.reader).data());
        assert(from(old(req.reader).data(), 0) =~= old(req.reader).data());
        assert(encrypted(req.header_type, req.hashing_algorithm, req.raw_key.data@, old(req.reader).data(), hv, mk, head, body));
    }
## ------------------------------------------------------------------ decrypt
@bcast tools::decrypt broadcast use {crate::stubs::model::group_model, crate::stubs::aead::group_aead, crate::corecrypto::header::same_hdr_eq, crate::corecrypto::key::wf_nonces};
@mod tools::decrypt
impl OnDecryptedHeaderFn { #[verifier::external_body] pub fn call_(self, t: &HeaderType) { unimplemented!() } }
/// where the encrypted body starts when the header is stored elsewhere: after a stripped header, if there is one
pub open spec fn detached_body(d: Seq<u8>, p: nat, n: nat) -> Seq<u8> {
    if p + n <= d.len() && all_zero(d.subrange(p as int, (p + n) as int)) { from(d, p + n) } else { d }
}
/// the content a file decrypts to (with its authentic prefix, when only a prefix is authentic)
pub open spec fn opens_to(h: HdrV, mk: Seq<u8>, aad: Seq<u8>, body: Seq<u8>) -> (Seq<u8>, bool) {
    match h.mode {
        Mode::StreamMode => dec_body(alg_of(h.alg), mk, h.nonce, aad, 0, body),
        Mode::MemoryMode => match unseal(alg_of(h.alg), mk, h.nonce, aad, body) { Some(m) => (m, true), None => (Seq::empty(), false) },
    }
}
pub open spec fn too_long(m: Mode, n: nat) -> bool { match m { Mode::StreamMode => n / BLOCK > MAX_CTR, Mode::MemoryMode => n > MAX_LEN } }
@fn tools::decrypt::execute
@params req
@rw if let Some($id_c) = $path_r.on_decrypted_header { $id_c($e_x); } ==> if let Some($id_c) = $path_r.on_decrypted_header { $id_c.call_($e_x); }
@spec
    ensures
      same_but_pos(old(req.reader), final(req.reader)),
      final(req.writer).faulty() == old(req.writer).faulty(), final(req.writer).id() == old(req.writer).id(),
      ({
        let d = old(req.reader).data(); let p = old(req.reader).pos();
        let b = if req.header_reader is Some { from(old(req.header_reader->0).data(), old(req.header_reader->0).pos()) } else { from(d, p) };
        let g = parse(b);
        let h = g.unwrap();
        let u = unlock(h, req.raw_key.data@);
        let body = if req.header_reader is Some { detached_body(d, p, hsize(h.version)) } else { from(d, p + hsize(h.version)) };
        let aad = aad_dec(h.version, h.alg, b);
        let o = opens_to(h, u.unwrap(), aad, body);
        let ok = g is Some && u is Some && o.1;
        match r {
            Ok(_) => ok && final(req.writer).data() == splice(old(req.writer).data(), old(req.writer).pos(), o.0),
            Err(_) => {
                &&& (!ok || old(req.reader).faulty() || old(req.writer).faulty() || (req.header_reader is Some && old(req.header_reader->0).faulty()) || too_long(h.mode, body.len()))
                // nothing was written, or a prefix of the authentic content, and that only if there is a master key
                &&& (final(req.writer).data() == old(req.writer).data()
                    || (g is Some && u is Some && partial(old(req.writer).data(), old(req.writer).pos(), o.0, final(req.writer).data())))
                &&& (g is Some && h.mode is MemoryMode && !old(req.writer).faulty() ==> final(req.writer).data() == old(req.writer).data())
            },
        }
      })
@start
    let ghost d0 = req.reader.data();
    let ghost p0 = req.reader.pos();
    let ghost det = req.header_reader is Some;
    let ghost b = if req.header_reader is Some { from(old(req.header_reader->0).data(), old(req.header_reader->0).pos()) } else { from(d0, p0) };
    proof { parse_wf(b); }
@after let (header, aad) = match req.header_reader $t_x;
    let ghost body = if det { detached_body(d0, p0, hsize(header.header_type.version)) } else { from(d0, p0 + hsize(header.header_type.version)) };
    proof {
        assert(parse(b) == Some(header.v()));
        assert(aad@ == aad_dec(header.header_type.version, header.header_type.algorithm, b));
        assert(from(req.reader.data(), req.reader.pos()) =~= body);
    }
