## Contracts on crates/volaris-crypto

@mod corecrypto::primitives
pub open spec fn alg_of(a: Algorithm) -> crate::stubs::aead::Alg {
    match a {
        Algorithm::Aes256Gcm => crate::stubs::aead::Alg::Aes,
        Algorithm::XChaCha20Poly1305 => crate::stubs::aead::Alg::XChaCha,
        Algorithm::DeoxysII256 => crate::stubs::aead::Alg::Deoxys,
    }
}
pub open spec fn nlen(a: Algorithm, m: Mode) -> nat {
    (crate::stubs::aead::nonce_len(alg_of(a)) - (if m is StreamMode { 4int } else { 0int })) as nat
}

@fn corecrypto::primitives::get_nonce_len
@params algorithm mode
@spec
    ensures r == nlen(*algorithm, *mode)

@fn corecrypto::primitives::gen_nonce
@params algorithm mode
@spec
    ensures r@.len() == nlen(*algorithm, *mode), drawn(r@)

@fn corecrypto::primitives::gen_master_key
@spec
    ensures r.data@.len() == 32, drawn(r.data@)

@fn corecrypto::primitives::gen_salt
@spec
    ensures r@.len() == 16, drawn(r@)

## ------------------------------------------------------------------ protected
@fn corecrypto::protected::Protected@Deref::deref
@spec
    ensures *r == self.data
@mod impl corecrypto::protected::Protected@Deref
type Target = T;

@fn corecrypto::protected::Protected::new
@params value
@spec
    ensures r.data == value

@fn corecrypto::protected::Protected::expose
@params self
@spec
    ensures *r == self.data
## both verified as plain functions: dropping cannot be observed in the verifier's logic
@fn corecrypto::protected::Protected@Drop::drop
@free
@sig fn drop_protected_<T: Zeroize>(self_: &mut Protected<T>)
@spec
    ensures final(self_).data.wiped(&old(self_).data)
@fn corecrypto::protected::Protected@Debug::fmt
@free
@sig fn debug_protected_<T: Zeroize>(self_: &Protected<T>, f: &mut crate::stubs::fmt::Formatter<'_>) -> (r: crate::stubs::fmt::Result)
@spec
    ensures r is Ok ==> final(f)@ == old(f)@ + "[REDACTED]"@,
       r is Err ==> exists|n: int| 0 <= n <= "[REDACTED]"@.len() && #[trigger] "[REDACTED]"@.take(n) == "[REDACTED]"@.take(n) && final(f)@ == old(f)@ + "[REDACTED]"@.take(n)
@type corecrypto::protected::Protected
+ noderive
impl<T> Clone for Protected<T> where T: Zeroize + Clone {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.data == self.data { unimplemented!() }
}

## ------------------------------------------------------------------ cipher
@mod corecrypto::cipher
impl Ciphers {
    pub open spec fn alg(&self) -> Alg { match self { Ciphers::Aes256Gcm(_) => Alg::Aes, Ciphers::XChaCha(_) => Alg::XChaCha, Ciphers::DeoxysII(_) => Alg::Deoxys } }
    pub open spec fn key(&self) -> Seq<u8> { match self { Ciphers::Aes256Gcm(c) => c.k@, Ciphers::XChaCha(c) => c.k@, Ciphers::DeoxysII(c) => c.k@ } }
}
@fn corecrypto::cipher::Ciphers::initialize
@params key algorithm
@spec
    ensures r matches Ok(c) && c.alg() == alg_of(*algorithm) && c.key() == key.data@
@fn corecrypto::cipher::Ciphers::encrypt
@params self nonce plaintext
@rw nonce.as_ref().into() ==> nonce
@spec
    requires nonce@.len() == nonce_len(self.alg())
    ensures match r { Ok(v) => v@ == seal(self.alg(), self.key(), nonce@, plaintext.paad(), plaintext.pmsg()), Err(_) => plaintext.pmsg().len() > MAX_LEN || plaintext.paad().len() > MAX_LEN }
@fn corecrypto::cipher::Ciphers::decrypt
@params self nonce ciphertext
@rw nonce.as_ref().into() ==> nonce
@spec
    requires nonce@.len() == nonce_len(self.alg())
    ensures match r { Ok(v) => unseal(self.alg(), self.key(), nonce@, ciphertext.paad(), ciphertext.pmsg()) == Some(v@),
        Err(_) => unseal(self.alg(), self.key(), nonce@, ciphertext.paad(), ciphertext.pmsg()) is None || ciphertext.pmsg().len() > MAX_LEN || ciphertext.paad().len() > MAX_LEN }
@fn corecrypto::cipher::Ciphers::encrypt_in_place
@params self nonce aad buffer
@rw nonce.as_ref().into() ==> nonce
@sigrw &mut dyn aead::Buffer ==> &mut crate::stubs::aead::Buffer
@spec
    requires nonce@.len() == nonce_len(self.alg())
    ensures r is Ok ==> final(buffer)@ == seal(self.alg(), self.key(), nonce@, aad@, old(buffer)@)
@type corecrypto::header::Keyslot
+
impl Clone for Keyslot {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.sv() == self.sv() { unimplemented!() }
}
@type corecrypto::CRYPTO_VERSION
drop
@dropuse std::fmt::Debug

## ------------------------------------------------------------------ stream
@mod corecrypto::stream
/// the published stream format: blocks of exactly 1 MiB, the last one shorter
pub spec const BLOCK: nat = 1048576;
pub open spec fn enc_body(a: Alg, key: Seq<u8>, prefix: Seq<u8>, aad: Seq<u8>, ctr: nat, pt: Seq<u8>) -> Seq<u8> decreases pt.len() {
    if pt.len() >= BLOCK {
        seal(a, key, stream_nonce(prefix, ctr, false), aad, pt.take(BLOCK as int)) + enc_body(a, key, prefix, aad, ctr + 1, pt.skip(BLOCK as int))
    } else { seal(a, key, stream_nonce(prefix, ctr, true), aad, pt) }
}
pub open spec fn dec_body(a: Alg, key: Seq<u8>, prefix: Seq<u8>, aad: Seq<u8>, ctr: nat, ct: Seq<u8>) -> (Seq<u8>, bool) decreases ct.len() {
    if ct.len() >= BLOCK + 16 {
        match unseal(a, key, stream_nonce(prefix, ctr, false), aad, ct.take((BLOCK + 16) as int)) {
            None => (Seq::empty(), false),
            Some(m) => { let d = dec_body(a, key, prefix, aad, ctr + 1, ct.skip((BLOCK + 16) as int)); (m + d.0, d.1) }
        }
    } else {
        match unseal(a, key, stream_nonce(prefix, ctr, true), aad, ct) { None => (Seq::empty(), false), Some(m) => (m, true) }
    }
}
/// content too long for the 31-bit block counter, or associated data too long for the ciphers
pub open spec fn too_big(ctr: nat, len: nat, aad: Seq<u8>) -> bool { ctr + len / BLOCK > MAX_CTR || aad.len() > MAX_LEN }
impl EncryptionStreams {
    pub open spec fn alg(&self) -> Alg { match self { EncryptionStreams::Aes256Gcm(_) => Alg::Aes, EncryptionStreams::XChaCha20Poly1305(_) => Alg::XChaCha, EncryptionStreams::DeoxysII256(_) => Alg::Deoxys } }
    pub open spec fn key(&self) -> Seq<u8> { match self { EncryptionStreams::Aes256Gcm(s) => s.key(), EncryptionStreams::XChaCha20Poly1305(s) => s.key(), EncryptionStreams::DeoxysII256(s) => s.key() } }
    pub open spec fn prefix(&self) -> Seq<u8> { match self { EncryptionStreams::Aes256Gcm(s) => s.prefix(), EncryptionStreams::XChaCha20Poly1305(s) => s.prefix(), EncryptionStreams::DeoxysII256(s) => s.prefix() } }
    pub open spec fn ctr(&self) -> nat { match self { EncryptionStreams::Aes256Gcm(s) => s.ctr(), EncryptionStreams::XChaCha20Poly1305(s) => s.ctr(), EncryptionStreams::DeoxysII256(s) => s.ctr() } }
    pub open spec fn enc(&self, aad: Seq<u8>, pt: Seq<u8>) -> Seq<u8> { enc_body(self.alg(), self.key(), self.prefix(), aad, self.ctr(), pt) }
}
impl DecryptionStreams {
    pub open spec fn alg(&self) -> Alg { match self { DecryptionStreams::Aes256Gcm(_) => Alg::Aes, DecryptionStreams::XChaCha20Poly1305(_) => Alg::XChaCha, DecryptionStreams::DeoxysII256(_) => Alg::Deoxys } }
    pub open spec fn key(&self) -> Seq<u8> { match self { DecryptionStreams::Aes256Gcm(s) => s.key(), DecryptionStreams::XChaCha20Poly1305(s) => s.key(), DecryptionStreams::DeoxysII256(s) => s.key() } }
    pub open spec fn prefix(&self) -> Seq<u8> { match self { DecryptionStreams::Aes256Gcm(s) => s.prefix(), DecryptionStreams::XChaCha20Poly1305(s) => s.prefix(), DecryptionStreams::DeoxysII256(s) => s.prefix() } }
    pub open spec fn ctr(&self) -> nat { match self { DecryptionStreams::Aes256Gcm(s) => s.ctr(), DecryptionStreams::XChaCha20Poly1305(s) => s.ctr(), DecryptionStreams::DeoxysII256(s) => s.ctr() } }
    pub open spec fn dec(&self, aad: Seq<u8>, ct: Seq<u8>) -> (Seq<u8>, bool) { dec_body(self.alg(), self.key(), self.prefix(), aad, self.ctr(), ct) }
}
/// decryption is the inverse of encryption ...
pub proof fn dec_enc(a: Alg, key: Seq<u8>, prefix: Seq<u8>, aad: Seq<u8>, ctr: nat, pt: Seq<u8>)
    ensures dec_body(a, key, prefix, aad, ctr, enc_body(a, key, prefix, aad, ctr, pt)) == (pt, true)
    decreases pt.len()
{
    let c = enc_body(a, key, prefix, aad, ctr, pt);
    if pt.len() >= BLOCK {
        let s = seal(a, key, stream_nonce(prefix, ctr, false), aad, pt.take(BLOCK as int));
        let rest = enc_body(a, key, prefix, aad, ctr + 1, pt.skip(BLOCK as int));
        dec_enc(a, key, prefix, aad, ctr + 1, pt.skip(BLOCK as int));
        assert(c.take((BLOCK + 16) as int) =~= s);
        assert(c.skip((BLOCK + 16) as int) =~= rest);
        assert(pt.take(BLOCK as int) + pt.skip(BLOCK as int) =~= pt);
    }
}
/// ... and accepts nothing but what encryption produces
pub proof fn enc_dec(a: Alg, key: Seq<u8>, prefix: Seq<u8>, aad: Seq<u8>, ctr: nat, ct: Seq<u8>)
    requires dec_body(a, key, prefix, aad, ctr, ct).1
    ensures ct == enc_body(a, key, prefix, aad, ctr, dec_body(a, key, prefix, aad, ctr, ct).0)
    decreases ct.len()
{
    let d = dec_body(a, key, prefix, aad, ctr, ct);
    if ct.len() >= BLOCK + 16 {
        let h = ct.take((BLOCK + 16) as int); let t = ct.skip((BLOCK + 16) as int);
        let m = unseal(a, key, stream_nonce(prefix, ctr, false), aad, h).unwrap();
        enc_dec(a, key, prefix, aad, ctr + 1, t);
        let d2 = dec_body(a, key, prefix, aad, ctr + 1, t).0;
        assert(h == seal(a, key, stream_nonce(prefix, ctr, false), aad, m));
        assert(m.len() == BLOCK);
        assert((m + d2).take(BLOCK as int) =~= m);
        assert((m + d2).skip(BLOCK as int) =~= d2);
        assert(h + t =~= ct);
    } else {
        let m = unseal(a, key, stream_nonce(prefix, ctr, true), aad, ct).unwrap();
        assert(ct == seal(a, key, stream_nonce(prefix, ctr, true), aad, m));
    }
}
/// two contents with the same encryption are equal; two bodies with the same decryption are equal
pub proof fn enc_injective(a: Alg, key: Seq<u8>, prefix: Seq<u8>, aad: Seq<u8>, x: Seq<u8>, y: Seq<u8>)
    requires enc_body(a, key, prefix, aad, 0, x) == enc_body(a, key, prefix, aad, 0, y) ensures x == y
{ dec_enc(a, key, prefix, aad, 0, x); dec_enc(a, key, prefix, aad, 0, y); }
/// the length of the body depends on the length of the content alone
pub proof fn enc_len(a: Alg, key: Seq<u8>, prefix: Seq<u8>, aad: Seq<u8>, ctr: nat, pt: Seq<u8>)
    ensures enc_body(a, key, prefix, aad, ctr, pt).len() == pt.len() + 16 * (pt.len() / BLOCK + 1)
    decreases pt.len()
{
    if pt.len() >= BLOCK {
        enc_len(a, key, prefix, aad, ctr + 1, pt.skip(BLOCK as int));
        assert(((pt.len() - BLOCK) as nat) / BLOCK + 1 == pt.len() / BLOCK) by (nonlinear_arith) requires pt.len() >= BLOCK, BLOCK == 1048576;
    } else { assert(pt.len() / BLOCK == 0) by (nonlinear_arith) requires pt.len() < BLOCK, BLOCK == 1048576; }
}

/// everything a write of (a prefix of) the next authentic bytes can leave behind
pub proof fn prefix_steps(d0: Seq<u8>, p0: nat, dw: Seq<u8>, dall: Seq<u8>, dnow: Seq<u8>, k: int)
    requires 0 <= k <= dall.len(), dw == splice(d0, p0, dall.take(k)), dall.skip(k) == dnow
    ensures forall|x: Seq<u8>, j: int| 0 <= j <= x.len() && x.len() <= dnow.len() && x == dnow.take(x.len() as int) ==>
        splice(dw, (p0 + k) as nat, #[trigger] x.take(j)) == splice(d0, p0, dall.take(k + j)),
      forall|x: Seq<u8>| x.len() <= dnow.len() && x == dnow.take(x.len() as int) ==>
        #[trigger] splice(dw, (p0 + k) as nat, x) == splice(d0, p0, dall.take(k + x.len())) && dall.skip(k + x.len()) == dnow.skip(x.len() as int)
{
    assert forall|x: Seq<u8>, j: int| 0 <= j <= x.len() && x.len() <= dnow.len() && x == dnow.take(x.len() as int) implies
        splice(dw, (p0 + k) as nat, #[trigger] x.take(j)) == splice(d0, p0, dall.take(k + j)) by {
        splice_splice(d0, p0, dall.take(k), x.take(j));
        assert forall|i: int| 0 <= i < j implies x[i] == dall[k + i] by { assert(x[i] == dnow[i]); assert(dnow[i] == dall.skip(k)[i]); }
        assert(dall.take(k) + x.take(j) =~= dall.take(k + j));
    }
    assert forall|x: Seq<u8>| x.len() <= dnow.len() && x == dnow.take(x.len() as int) implies
        #[trigger] splice(dw, (p0 + k) as nat, x) == splice(d0, p0, dall.take(k + x.len())) && dall.skip(k + x.len()) == dnow.skip(x.len() as int) by {
        splice_splice(d0, p0, dall.take(k), x);
        assert forall|i: int| 0 <= i < x.len() implies x[i] == dall[k + i] by { assert(x[i] == dnow[i]); assert(dnow[i] == dall.skip(k)[i]); }
        assert(dall.take(k) + x =~= dall.take(k + x.len()));
        assert(dall.skip(k + x.len()) =~= dnow.skip(x.len() as int));
    }
}
@fn corecrypto::stream::read_block
@params reader buffer
@spec
    ensures same_but_pos(old(reader), final(reader)), final(buffer)@.len() == old(buffer)@.len(),
      match r {
        Ok(n) => {
            let d = from(old(reader).data(), old(reader).pos());
            &&& n == (if d.len() < old(buffer)@.len() { d.len() } else { old(buffer)@.len() })
            &&& final(reader).pos() == old(reader).pos() + n
            &&& final(buffer)@.take(n as int) == d.take(n as int)
        },
        Err(_) => old(reader).faulty(),
      }
@loop 0
    invariant
        same_but_pos(old(reader), reader), buffer@.len() == old(buffer)@.len(), filled <= buffer@.len(),
        reader.pos() == old(reader).pos() + filled,
        filled <= from(old(reader).data(), old(reader).pos()).len(),
        buffer@.take(filled as int) =~= from(old(reader).data(), old(reader).pos()).take(filled as int),
    ensures
        filled == buffer@.len() || filled == from(old(reader).data(), old(reader).pos()).len(),
    decreases buffer@.len() - filled

@fn corecrypto::stream::EncryptionStreams::initialize
@params key nonce algorithm
@spec
    ensures match r {
        Ok(s) => nonce@.len() == nlen(*algorithm, Mode::StreamMode) && s.alg() == alg_of(*algorithm) && s.key() == key.data@ && s.prefix() == nonce@ && s.ctr() == 0,
        Err(_) => nonce@.len() != nlen(*algorithm, Mode::StreamMode),
    }
@rw nonce.into() ==> nonce
@fn corecrypto::stream::EncryptionStreams::encrypt_next
@params self payload
@spec
    ensures final(self).alg() == old(self).alg(), final(self).key() == old(self).key(), final(self).prefix() == old(self).prefix(),
        match r {
            Ok(v) => v@ == seal(old(self).alg(), old(self).key(), stream_nonce(old(self).prefix(), old(self).ctr(), false), payload.paad(), payload.pmsg())
               && final(self).ctr() == old(self).ctr() + 1 && old(self).ctr() < MAX_CTR,
            Err(_) => final(self).ctr() == old(self).ctr() && (old(self).ctr() >= MAX_CTR || payload.pmsg().len() > MAX_LEN || payload.paad().len() > MAX_LEN),
        }
@fn corecrypto::stream::EncryptionStreams::encrypt_last
@params self payload
@spec
    ensures match r {
            Ok(v) => v@ == seal(self.alg(), self.key(), stream_nonce(self.prefix(), self.ctr(), true), payload.paad(), payload.pmsg()),
            Err(_) => self.ctr() > MAX_CTR || payload.pmsg().len() > MAX_LEN || payload.paad().len() > MAX_LEN,
        }
@fn corecrypto::stream::EncryptionStreams::encrypt_file
@params self reader writer aad
@spec
    ensures
        same_but_pos(old(reader), final(reader)), final(writer).faulty() == old(writer).faulty(), final(writer).id() == old(writer).id(),
        match r {
            Ok(_) => {
                let d = from(old(reader).data(), old(reader).pos());
                let c = self.enc(aad@, d);
                &&& final(writer).data() == splice(old(writer).data(), old(writer).pos(), c)
                &&& final(writer).pos() == old(writer).pos() + c.len()
                &&& final(reader).pos() == old(reader).pos() + d.len()
                &&& final(writer).log().len() > 0 && final(writer).log().last() == Ev::Flush
            },
            Err(_) => old(reader).faulty() || old(writer).faulty() || too_big(self.ctr(), from(old(reader).data(), old(reader).pos()).len(), aad@),
        }
@loop 0
    invariant_except_break
        read_buffer@.len() == BLOCK,
        same_but_pos(old(reader), reader), writer.faulty() == old(writer).faulty(), writer.id() == old(writer).id(),
        self_.alg() == self.alg(), self_.key() == self.key(), self_.prefix() == self.prefix(),
        reader.pos() <= reader.data().len() || reader.pos() == old(reader).pos(),
        reader.pos() >= old(reader).pos(),
        (reader.pos() + from(reader.data(), reader.pos()).len()) == old(reader).pos() + from(old(reader).data(), old(reader).pos()).len(),
        splice(writer.data(), writer.pos(), self_.enc(aad@, from(reader.data(), reader.pos())))
            == splice(old(writer).data(), old(writer).pos(), self.enc(aad@, from(old(reader).data(), old(reader).pos()))),
        writer.pos() + self_.enc(aad@, from(reader.data(), reader.pos())).len()
            == old(writer).pos() + self.enc(aad@, from(old(reader).data(), old(reader).pos())).len(),
        self_.ctr() + from(reader.data(), reader.pos()).len() / BLOCK == self.ctr() + from(old(reader).data(), old(reader).pos()).len() / BLOCK,
    ensures
        same_but_pos(old(reader), reader), writer.faulty() == old(writer).faulty(), writer.id() == old(writer).id(),
        reader.pos() == old(reader).pos() + from(old(reader).data(), old(reader).pos()).len(),
        writer.data() == splice(old(writer).data(), old(writer).pos(), self.enc(aad@, from(old(reader).data(), old(reader).pos()))),
        writer.pos() == old(writer).pos() + self.enc(aad@, from(old(reader).data(), old(reader).pos())).len(),
    decreases from(reader.data(), reader.pos()).len()
@loop 0 begin
    let ghost d = from(reader.data(), reader.pos());
    let ghost p0 = reader.pos();
    proof {
        assert(d.len() >= BLOCK ==> d.skip(BLOCK as int) =~= from(reader.data(), reader.pos() + BLOCK));
        assert(d.take(d.len() as int) =~= d);
        assert(d.len() >= BLOCK ==> ((d.len() - BLOCK) as nat) / BLOCK + 1 == d.len() / BLOCK) by (nonlinear_arith) requires BLOCK == 1048576;
        assert(d.len() < BLOCK ==> d.len() / BLOCK == 0) by (nonlinear_arith) requires BLOCK == 1048576;
        assert(BLOCK <= MAX_LEN);
    }
@loop 0 end
    proof { assert(from(reader.data(), reader.pos()) == d.skip(BLOCK as int)); }

@fn corecrypto::stream::DecryptionStreams::initialize
@params key nonce algorithm
@rw nonce.into() ==> nonce
@spec
    requires nonce@.len() == nlen(*algorithm, Mode::StreamMode)
    ensures r matches Ok(s) && s.alg() == alg_of(*algorithm) && s.key() == key.data@ && s.prefix() == nonce@ && s.ctr() == 0,
@fn corecrypto::stream::DecryptionStreams::decrypt_next
@params self payload
@spec
    ensures final(self).alg() == old(self).alg(), final(self).key() == old(self).key(), final(self).prefix() == old(self).prefix(),
        ({ let u = unseal(old(self).alg(), old(self).key(), stream_nonce(old(self).prefix(), old(self).ctr(), false), payload.paad(), payload.pmsg());
        match r {
            Ok(v) => u == Some(v@) && final(self).ctr() == old(self).ctr() + 1 && old(self).ctr() < MAX_CTR,
            Err(_) => final(self).ctr() == old(self).ctr() && (u is None || old(self).ctr() >= MAX_CTR || payload.pmsg().len() > MAX_LEN || payload.paad().len() > MAX_LEN),
        } })
@fn corecrypto::stream::DecryptionStreams::decrypt_last
@params self payload
@spec
    ensures ({ let u = unseal(self.alg(), self.key(), stream_nonce(self.prefix(), self.ctr(), true), payload.paad(), payload.pmsg());
        match r {
            Ok(v) => u == Some(v@),
            Err(_) => u is None || self.ctr() > MAX_CTR || payload.pmsg().len() > MAX_LEN || payload.paad().len() > MAX_LEN,
        } })
@fn corecrypto::stream::DecryptionStreams::decrypt_file
@params self reader writer aad
@spec
    ensures
        same_but_pos(old(reader), final(reader)), final(writer).faulty() == old(writer).faulty(), final(writer).id() == old(writer).id(),
        ({
            let c = from(old(reader).data(), old(reader).pos());
            let d = self.dec(aad@, c);
            match r {
                Ok(_) => {
                    &&& d.1
                    &&& final(writer).data() == splice(old(writer).data(), old(writer).pos(), d.0)
                    &&& final(writer).pos() == old(writer).pos() + d.0.len()
                    &&& final(reader).pos() == old(reader).pos() + c.len()
                    &&& final(writer).log().len() > 0 && final(writer).log().last() == Ev::Flush
                },
                Err(_) => {
                    &&& (old(reader).faulty() || old(writer).faulty() || !d.1 || too_big(self.ctr(), c.len(), aad@))
                    // whatever arrived is a prefix of the authentic content
                    &&& partial(old(writer).data(), old(writer).pos(), d.0, final(writer).data())
                },
            }
        })
@loop 0
    invariant_except_break
        buffer@.len() == BLOCK + 16,
        same_but_pos(old(reader), reader), writer.faulty() == old(writer).faulty(), writer.id() == old(writer).id(),
        self_.alg() == self.alg(), self_.key() == self.key(), self_.prefix() == self.prefix(),
        reader.pos() <= reader.data().len() || reader.pos() == old(reader).pos(),
        (reader.pos() + from(reader.data(), reader.pos()).len()) == old(reader).pos() + from(old(reader).data(), old(reader).pos()).len(),
        ({
            let dall = self.dec(aad@, from(old(reader).data(), old(reader).pos()));
            let d = self_.dec(aad@, from(reader.data(), reader.pos()));
            let k = writer.pos() - old(writer).pos();
            &&& 0 <= k <= dall.0.len()
            &&& writer.data() == splice(old(writer).data(), old(writer).pos(), dall.0.take(k))
            &&& dall.0.skip(k) == d.0
            &&& dall.1 == d.1
        }),
        self_.ctr() + from(reader.data(), reader.pos()).len() / BLOCK <= self.ctr() + from(old(reader).data(), old(reader).pos()).len() / BLOCK,
    ensures
        same_but_pos(old(reader), reader), writer.faulty() == old(writer).faulty(), writer.id() == old(writer).id(),
        reader.pos() == old(reader).pos() + from(old(reader).data(), old(reader).pos()).len(),
        self.dec(aad@, from(old(reader).data(), old(reader).pos())).1,
        writer.data() == splice(old(writer).data(), old(writer).pos(), self.dec(aad@, from(old(reader).data(), old(reader).pos())).0),
        writer.pos() == old(writer).pos() + self.dec(aad@, from(old(reader).data(), old(reader).pos())).0.len(),
    decreases from(reader.data(), reader.pos()).len()
@loop 0 begin
    let ghost c = from(reader.data(), reader.pos());
    let ghost dall = self.dec(aad@, from(old(reader).data(), old(reader).pos())).0;
    let ghost dnow = self_.dec(aad@, c).0;
    let ghost kk = writer.pos() - old(writer).pos();
    let ghost self1 = self_;
    let ghost w1 = *writer;
    proof {
        assert(c.len() >= BLOCK + 16 ==> c.skip((BLOCK + 16) as int) =~= from(reader.data(), reader.pos() + BLOCK + 16));
        assert(c.take(c.len() as int) =~= c);
        assert(c.len() >= BLOCK + 16 ==> ((c.len() - BLOCK - 16) as nat) / BLOCK + 1 <= c.len() / BLOCK) by (nonlinear_arith) requires BLOCK == 1048576;
        assert(BLOCK + 16 <= MAX_LEN);
        prefix_steps(old(writer).data(), old(writer).pos(), w1.data(), dall, dnow, kk);
    }

## ------------------------------------------------------------------ key hashing
@mod corecrypto::key
/// the published parameters of the key-hashing functions
pub open spec fn a2(m: u32, t: u32, pw: Seq<u8>, salt: Seq<u8>) -> Option<Seq<u8>> {
    if pw.len() > 0xffff_ffff { None } else {
        Some(crate::stubs::argon2::argon2(crate::stubs::argon2::Algorithm::Argon2id, crate::stubs::argon2::Version::V0x13, m, t, 4, pw, salt, 32)) }
}
pub open spec fn bal(s: u32, pw: Seq<u8>, salt: Seq<u8>) -> Option<Seq<u8>> {
    Some(crate::stubs::balloon_hash::balloon(3, crate::stubs::balloon_hash::Algorithm::Balloon, s, 1, 1, None, pw, salt))
}
pub open spec fn argon_v(v: HeaderVersion, pw: Seq<u8>, salt: Seq<u8>) -> Option<Seq<u8>> {
    match v { HeaderVersion::V1 => a2(8192, 8, pw, salt), HeaderVersion::V2 => a2(262144, 8, pw, salt), HeaderVersion::V3 => a2(262144, 10, pw, salt), _ => None }
}
pub open spec fn balloon_v(v: HeaderVersion, pw: Seq<u8>, salt: Seq<u8>) -> Option<Seq<u8>> {
    match v { HeaderVersion::V4 => bal(262144, pw, salt), HeaderVersion::V5 => bal(278528, pw, salt), _ => None }
}
/// what a key-hashing identifier stands for
pub open spec fn kdf(h: HashingAlgorithm, pw: Seq<u8>, salt: Seq<u8>) -> Option<Seq<u8>> {
    match h {
        HashingAlgorithm::Argon2id(i) => if i == 1 { a2(8192, 8, pw, salt) } else if i == 2 { a2(262144, 8, pw, salt) } else if i == 3 { a2(262144, 10, pw, salt) } else { None },
        HashingAlgorithm::Blake3Balloon(i) => if i == 4 { bal(262144, pw, salt) } else if i == 5 { bal(278528, pw, salt) } else { None },
    }
}
/// what a keyslot gives to a key: the master key, or nothing
pub open spec fn slot_open(a: Algorithm, s: SlotV, pw: Seq<u8>) -> Option<Seq<u8>> {
    match kdf(s.alg, pw, s.salt) { None => None, Some(k) => unseal(alg_of(a), k, s.nonce, Seq::empty(), s.ek) }
}
/// index of the first keyslot among the first n that opens
pub open spec fn first_open(a: Algorithm, s: Seq<SlotV>, pw: Seq<u8>, n: nat) -> Option<int> decreases n {
    if n == 0 { None } else { match first_open(a, s, pw, (n - 1) as nat) { Some(i) => Some(i), None => if slot_open(a, s[n - 1], pw) is Some { Some(n - 1) } else { None } } }
}
pub open spec fn which(h: HdrV, pw: Seq<u8>) -> Option<int> {
    match h.slots { None => None, Some(s) => first_open(h.alg, s, pw, s.len()) }
}
/// the master key a header yields to a key
pub open spec fn unlock(h: HdrV, pw: Seq<u8>) -> Option<Seq<u8>> {
    match h.version {
        HeaderVersion::V1 | HeaderVersion::V2 | HeaderVersion::V3 => match h.salt { None => None, Some(s) => argon_v(h.version, pw, s) },
        HeaderVersion::V4 => match h.slots { None => None, Some(s) => if s.len() == 0 { None } else { slot_open(h.alg, s[0], pw) } },
        HeaderVersion::V5 => match which(h, pw) { None => None, Some(i) => slot_open(h.alg, h.slots.unwrap()[i], pw) },
    }
}
pub proof fn first_open_props(a: Algorithm, s: Seq<SlotV>, pw: Seq<u8>, n: nat)
    requires n <= s.len()
    ensures match first_open(a, s, pw, n) {
        Some(i) => 0 <= i < n && slot_open(a, s[i], pw) is Some && (forall|j: int| 0 <= j < i ==> slot_open(a, #[trigger] s[j], pw) is None),
        None => forall|j: int| 0 <= j < n ==> slot_open(a, #[trigger] s[j], pw) is None,
    }
    decreases n
{ if n > 0 { first_open_props(a, s, pw, (n - 1) as nat); } }
pub proof fn first_open_mono(a: Algorithm, s: Seq<SlotV>, pw: Seq<u8>, n: nat, m: nat)
    requires first_open(a, s, pw, n) is Some, n <= m ensures first_open(a, s, pw, m) == first_open(a, s, pw, n)
    decreases m
{ if m > n { first_open_mono(a, s, pw, n, (m - 1) as nat); } }
/// the property itself: a key unlocks a V5 header exactly when some slot opens under it, and the first such slot decides
pub proof fn unlock_v5(h: HdrV, pw: Seq<u8>)
    requires h.version is V5, h.slots is Some
    ensures unlock(h, pw) is Some <==> (exists|i: int| 0 <= i < h.slots.unwrap().len() && slot_open(h.alg, #[trigger] h.slots.unwrap()[i], pw) is Some),
      forall|i: int| 0 <= i < h.slots.unwrap().len() && slot_open(h.alg, #[trigger] h.slots.unwrap()[i], pw) is Some
         && (forall|j: int| 0 <= j < i ==> slot_open(h.alg, #[trigger] h.slots.unwrap()[j], pw) is None) ==> unlock(h, pw) == slot_open(h.alg, h.slots.unwrap()[i], pw)
{ first_open_props(h.alg, h.slots.unwrap(), pw, h.slots.unwrap().len()); }
pub broadcast proof fn wf_nonces(h: Header)
    requires #[trigger] wf(h.v())
    ensures forall|i: int| h.keyslots is Some && 0 <= i < h.keyslots.unwrap()@.len() ==> (#[trigger] h.keyslots.unwrap()@[i]).nonce@.len() == nonce_len(alg_of(h.header_type.algorithm))
{ if h.keyslots is Some { assert forall|i: int| 0 <= i < h.keyslots.unwrap()@.len() implies (#[trigger] h.keyslots.unwrap()@[i]).nonce@.len() == nonce_len(alg_of(h.header_type.algorithm)) by { assert(wf_slot(h.v().alg, h.v().slots.unwrap()[i])); } } }
/// a slot sealed under the hash of a key opens under that key, and gives back what was sealed
pub proof fn sealed_slot_opens(a: Algorithm, s: SlotV, pw: Seq<u8>, mk: Seq<u8>)
    requires kdf(s.alg, pw, s.salt) is Some, s.ek == seal(alg_of(a), kdf(s.alg, pw, s.salt).unwrap(), s.nonce, Seq::empty(), mk)
    ensures slot_open(a, s, pw) == Some(mk)
{ }
/// Iterator::find_map over the keyslots, calling the (lifted) closure of the source on each in order
pub fn find_slot_(v: &Vec<Keyslot>, raw_key: &Protected<Vec<u8>>, header: &Header) -> (r: Option<Protected<[u8; MASTER_KEY_LEN]>>)
    requires forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).nonce@.len() == nonce_len(alg_of(header.header_type.algorithm))
    ensures ({ let a = header.header_type.algorithm; let s = crate::corecrypto::header::svs(v@); let w = first_open(a, s, raw_key.data@, s.len());
        match w { None => r is None, Some(i) => r matches Some(k) && slot_open(a, s[i], raw_key.data@) == Some(k.data@) } })
{
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), first_open(header.header_type.algorithm, crate::corecrypto::header::svs(v@), raw_key.data@, i as nat) is None,
           forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).nonce@.len() == nonce_len(alg_of(header.header_type.algorithm)),
        decreases v@.len() - i
    {
        let r = slot_try_(&v[i], raw_key, header);
        if r.is_some() {
            proof { first_open_mono(header.header_type.algorithm, crate::corecrypto::header::svs(v@), raw_key.data@, (i + 1) as nat, v@.len()); }
            return r;
        }
        i += 1;
    }
    None
}

@fn corecrypto::key::argon2id_hash
@params raw_key salt version
@spec
    ensures match r { Ok(k) => argon_v(*version, raw_key.data@, salt@) == Some(k.data@), Err(_) => argon_v(*version, raw_key.data@, salt@) is None }
@fn corecrypto::key::balloon_hash
@params raw_key salt version
@spec
    ensures match r { Ok(k) => balloon_v(*version, raw_key.data@, salt@) == Some(k.data@), Err(_) => balloon_v(*version, raw_key.data@, salt@) is None }
@fn corecrypto::key::vec_to_arr
@params master_key_vec
@spec
    ensures master_key_vec@.len() == N ==> r@ == master_key_vec@,
       forall|i: int| 0 <= i < N ==> r@[i] == (if i < master_key_vec@.len() { master_key_vec@[i] } else { 0u8 })
@fn corecrypto::key::decrypt_master_key
@params raw_key header
@spec
    requires forall|i: int| header.keyslots is Some && 0 <= i < header.keyslots.unwrap()@.len() ==> (#[trigger] header.keyslots.unwrap()@[i]).nonce@.len() == nonce_len(alg_of(header.header_type.algorithm))
    ensures match r { Ok(k) => unlock(header.v(), raw_key.data@) == Some(k.data@), Err(_) => unlock(header.v(), raw_key.data@) is None }
@rw header.keyslots.as_ref().ok_or_else($e_a)?.iter().find_map(|$id_k| $e_body).ok_or_else ==> find_slot_(header.keyslots.as_ref().ok_or_else($e_a)?, &raw_key, header).ok_or_else
@fn corecrypto::key::decrypt_master_key#slot_try_
@lift corecrypto::key::decrypt_master_key
@sig fn slot_try_($id_k: &Keyslot, raw_key: &Protected<Vec<u8>>, header: &Header) -> (r: Option<Protected<[u8; MASTER_KEY_LEN]>>)
@spec
    requires $id_k.nonce@.len() == nonce_len(alg_of(header.header_type.algorithm))
    ensures match r { Some(k) => slot_open(header.header_type.algorithm, $id_k.sv(), raw_key.data@) == Some(k.data@), None => slot_open(header.header_type.algorithm, $id_k.sv(), raw_key.data@) is None }

## ------------------------------------------------------------------ passphrases
@mod corecrypto::key
pub open spec fn word(i: usize) -> Seq<char> { crate::stubs::words::entries()[i as int] }
/// the words with these numbers, joined by single dashes
pub open spec fn phrase(ix: Seq<usize>) -> Seq<char> decreases ix.len() {
    if ix.len() == 0 { Seq::empty() } else if ix.len() == 1 { word(ix[0]) } else { phrase(ix.drop_last()).push('-') + word(ix.last()) }
}
pub open spec fn dashed(ix: Seq<usize>) -> Seq<char> { if ix.len() == 0 { Seq::empty() } else { phrase(ix).push('-') } }
pub open spec fn all_picked(ix: Seq<usize>) -> bool { forall|j: int| 0 <= j < ix.len() ==> crate::stubs::rand::picked(#[trigger] ix[j], 0, crate::stubs::words::entries().len() as usize) }
@fn corecrypto::key::generate_passphrase
@params total_words
@spec
    ensures exists|ix: Seq<usize>| ix.len() == (if *total_words > 0 { *total_words as int } else { 0 }) && all_picked(ix) && r.data@ == #[trigger] phrase(ix)
@loop 0 before
    let ghost mut ix: Seq<usize> = Seq::empty();
@loop 0
    invariant
        end__0 == *total_words, 0 <= it__0, it__0 <= end__0 || it__0 == 0, ix.len() == it__0, all_picked(ix),
        words@.len() == crate::stubs::words::entries().len(), words@.len() > 0,
        forall|i: int| 0 <= i < words@.len() ==> (#[trigger] words@[i])@ == crate::stubs::words::entries()[i],
        passphrase@ == (if it__0 >= end__0 { phrase(ix) } else { dashed(ix) }),
    decreases end__0 - it__0
@after let index = $e_x;
    proof {
        let jx = ix.push(index);
        assert(jx.drop_last() =~= ix); assert(jx.last() == index);
        assert(phrase(jx) =~= dashed(ix) + word(index));
        assert(forall|j: int| 0 <= j < ix.len() ==> jx[j] == ix[j]);
        ix = jx;
    }
@loop 0 after
    proof { assert(passphrase@ == phrase(ix)); }
## ------------------------------------------------------------------ header
@bcast corecrypto::header broadcast use crate::stubs::model::group_seq;
@mod corecrypto::header
pub struct SlotV { pub alg: HashingAlgorithm, pub ek: Seq<u8>, pub nonce: Seq<u8>, pub salt: Seq<u8> }
pub struct HdrV { pub version: HeaderVersion, pub alg: Algorithm, pub mode: Mode, pub nonce: Seq<u8>, pub salt: Option<Seq<u8>>, pub slots: Option<Seq<SlotV>> }
impl Keyslot { pub open spec fn sv(&self) -> SlotV { SlotV { alg: self.hash_algorithm, ek: self.encrypted_key@, nonce: self.nonce@, salt: self.salt@ } } }
pub open spec fn svs(s: Seq<Keyslot>) -> Seq<SlotV> { s.map_values(|k: Keyslot| k.sv()) }
impl Header {
    pub open spec fn v(&self) -> HdrV {
        HdrV { version: self.header_type.version, alg: self.header_type.algorithm, mode: self.header_type.mode, nonce: self.nonce@,
            salt: match self.salt { Some(s) => Some(s@), None => None }, slots: match self.keyslots { Some(k) => Some(svs(k@)), None => None } }
    }
}
#[verifier::external_body]
pub fn clone_slots_(k: &Option<Vec<Keyslot>>) -> (r: Option<Vec<Keyslot>>)
    ensures match (*k, r) { (Some(a), Some(b)) => svs(a@) == svs(b@), (None, None) => true, _ => false }
{ unimplemented!() }
pub open spec fn same_hdr(p: HdrV, q: HdrV) -> bool {
    p.version == q.version && p.alg == q.alg && p.mode == q.mode && p.nonce =~= q.nonce
    && match (p.salt, q.salt) { (Some(a), Some(b)) => a =~= b, (None, None) => true, _ => false }
    && match (p.slots, q.slots) { (Some(a), Some(b)) => a.len() == b.len() && (forall|i: int| 0 <= i < a.len() ==> #[trigger] same_slot(a[i], b[i])), (None, None) => true, _ => false }
}
pub open spec fn same_slot(p: SlotV, q: SlotV) -> bool { p.alg == q.alg && p.ek =~= q.ek && p.nonce =~= q.nonce && p.salt =~= q.salt }
pub broadcast proof fn same_hdr_eq(p: HdrV, q: HdrV)
    requires #[trigger] same_hdr(p, q) ensures p == q
{ if p.slots is Some { let a = p.slots.unwrap(); let b = q.slots.unwrap();
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(same_slot(a[i], b[i])); } assert(a =~= b); } }
/// the published format
pub open spec fn hsize(v: HeaderVersion) -> nat { match v { HeaderVersion::V4 => 128, HeaderVersion::V5 => 416, _ => 64 } }
pub open spec fn tag_version(v: HeaderVersion) -> Seq<u8> { seq![0xDEu8, match v { HeaderVersion::V1 => 1u8, HeaderVersion::V2 => 2u8, HeaderVersion::V3 => 3u8, HeaderVersion::V4 => 4u8, HeaderVersion::V5 => 5u8 }] }
pub open spec fn tag_alg(a: Algorithm) -> Seq<u8> { seq![0x0Eu8, match a { Algorithm::XChaCha20Poly1305 => 1u8, Algorithm::Aes256Gcm => 2u8, Algorithm::DeoxysII256 => 3u8 }] }
pub open spec fn tag_mode(m: Mode) -> Seq<u8> { seq![0x0Cu8, match m { Mode::StreamMode => 1u8, Mode::MemoryMode => 2u8 }] }
pub open spec fn slot_tag(h: HashingAlgorithm) -> Seq<u8> {
    match h {
        HashingAlgorithm::Argon2id(i) => if i == 1 { seq![0xDFu8, 0xA1u8] } else if i == 2 { seq![0xDFu8, 0xA2u8] } else if i == 3 { seq![0xDFu8, 0xA3u8] } else { seq![0u8, 0u8] },
        HashingAlgorithm::Blake3Balloon(i) => if i == 4 { seq![0xDFu8, 0xB4u8] } else if i == 5 { seq![0xDFu8, 0xB5u8] } else { seq![0u8, 0u8] },
    }
}
pub open spec fn known(h: HashingAlgorithm) -> bool {
    match h { HashingAlgorithm::Argon2id(i) => 1 <= i <= 3, HashingAlgorithm::Blake3Balloon(i) => 4 <= i <= 5 }
}
pub open spec fn tags(h: HdrV) -> Seq<u8> { tag_version(h.version) + tag_alg(h.alg) + tag_mode(h.mode) }
pub open spec fn mklen(a: Algorithm) -> nat { nlen(a, crate::corecrypto::primitives::Mode::MemoryMode) }
pub open spec fn ser_slot(a: Algorithm, s: SlotV) -> Seq<u8> { slot_tag(s.alg) + s.ek + s.nonce + zeros((24 - mklen(a)) as nat) + s.salt + zeros(6) }
pub open spec fn ser_slots(a: Algorithm, s: Seq<SlotV>, n: nat) -> Seq<u8> decreases n {
    if n == 0 { Seq::empty() } else { ser_slots(a, s, (n - 1) as nat) + ser_slot(a, s[n - 1]) }
}
pub open spec fn pad(h: HdrV) -> Seq<u8> { zeros((26 - nlen(h.alg, h.mode)) as nat) }
pub open spec fn v4salt(h: HdrV) -> Seq<u8> { match h.salt { Some(s) => s, None => h.slots.unwrap()[0].salt } }
pub open spec fn ser(h: HdrV) -> Seq<u8> {
    match h.version {
        HeaderVersion::V3 => tags(h) + h.salt.unwrap() + zeros(16) + h.nonce + pad(h),
        HeaderVersion::V4 => tags(h) + v4salt(h) + h.nonce + pad(h) + h.slots.unwrap()[0].ek + h.slots.unwrap()[0].nonce + zeros((32 - mklen(h.alg)) as nat),
        HeaderVersion::V5 => tags(h) + h.nonce + pad(h) + ser_slots(h.alg, h.slots.unwrap(), h.slots.unwrap().len()) + zeros((96 * (4 - h.slots.unwrap().len())) as nat),
        _ => Seq::empty(),
    }
}
/// what is authenticated, computed from the header ...
pub open spec fn aad_enc(h: HdrV) -> Seq<u8> {
    match h.version {
        HeaderVersion::V3 => ser(h),
        HeaderVersion::V4 => tags(h) + v4salt(h) + h.nonce + pad(h) + zeros((32 - mklen(h.alg)) as nat),
        HeaderVersion::V5 => tags(h) + h.nonce + pad(h),
        _ => Seq::empty(),
    }
}
/// ... and from the stored bytes
pub open spec fn aad_dec(v: HeaderVersion, a: Algorithm, b: Seq<u8>) -> Seq<u8> {
    match v {
        HeaderVersion::V3 => b.take(64),
        HeaderVersion::V4 => b.take(48) + b.subrange((96 + mklen(a)) as int, 128),
        HeaderVersion::V5 => b.take(32),
        _ => Seq::empty(),
    }
}
pub open spec fn p_version(b: Seq<u8>) -> Option<HeaderVersion> {
    if b[0] != 0xDE { None } else if b[1] == 1 { Some(HeaderVersion::V1) } else if b[1] == 2 { Some(HeaderVersion::V2) } else if b[1] == 3 { Some(HeaderVersion::V3) } else if b[1] == 4 { Some(HeaderVersion::V4) } else if b[1] == 5 { Some(HeaderVersion::V5) } else { None }
}
pub open spec fn p_alg(b: Seq<u8>) -> Option<Algorithm> {
    if b[2] != 0x0E { None } else if b[3] == 1 { Some(Algorithm::XChaCha20Poly1305) } else if b[3] == 2 { Some(Algorithm::Aes256Gcm) } else if b[3] == 3 { Some(Algorithm::DeoxysII256) } else { None }
}
pub open spec fn p_mode(b: Seq<u8>) -> Option<Mode> {
    if b[4] != 0x0C { None } else if b[5] == 1 { Some(Mode::StreamMode) } else if b[5] == 2 { Some(Mode::MemoryMode) } else { None }
}
pub open spec fn p_hash(x: u8) -> Option<HashingAlgorithm> {
    if x == 0xA1 { Some(HashingAlgorithm::Argon2id(1)) } else if x == 0xA2 { Some(HashingAlgorithm::Argon2id(2)) } else if x == 0xA3 { Some(HashingAlgorithm::Argon2id(3)) }
    else if x == 0xB4 { Some(HashingAlgorithm::Blake3Balloon(4)) } else if x == 0xB5 { Some(HashingAlgorithm::Blake3Balloon(5)) } else { None }
}
/// keyslots among the first n of the table
pub open spec fn p_slots(b: Seq<u8>, nl: nat, n: nat) -> Option<Seq<SlotV>> decreases n {
    if n == 0 { Some(Seq::empty()) } else {
        let o = 32 + 96 * (n - 1);
        match p_slots(b, nl, (n - 1) as nat) {
            None => None,
            Some(s) => if b[o] != 0xDF { Some(s) } else { match p_hash(b[o + 1]) {
                None => None,
                Some(h) => Some(s.push(SlotV { alg: h, ek: b.subrange(o + 2, o + 50), nonce: b.subrange(o + 50, (o + 50 + nl) as int), salt: b.subrange(o + 74, o + 90) })),
            } },
        }
    }
}
/// what a header is, as a function of the bytes that start with it
pub open spec fn parse(b: Seq<u8>) -> Option<HdrV> {
    if b.len() < 2 { None } else { match p_version(b) { None => None, Some(v) =>
    if b.len() < hsize(v) { None } else { match p_alg(b) { None => None, Some(a) => match p_mode(b) { None => None, Some(m) => {
        let nl = nlen(a, m); let kl = mklen(a);
        match v {
            HeaderVersion::V1 | HeaderVersion::V3 => Some(HdrV { version: v, alg: a, mode: m, salt: Some(b.subrange(6, 22)), nonce: b.subrange(38, (38 + nl) as int), slots: None }),
            HeaderVersion::V2 => Some(HdrV { version: v, alg: a, mode: m, salt: Some(b.subrange(6, 22)), nonce: b.subrange(22, (22 + nl) as int), slots: None }),
            HeaderVersion::V4 => Some(HdrV { version: v, alg: a, mode: m, salt: Some(b.subrange(6, 22)), nonce: b.subrange(22, (22 + nl) as int),
                slots: Some(seq![SlotV { alg: HashingAlgorithm::Blake3Balloon(4), ek: b.subrange(48, 96), nonce: b.subrange(96, (96 + kl) as int), salt: b.subrange(6, 22) }]) }),
            HeaderVersion::V5 => match p_slots(b, kl, 4) { None => None, Some(s) =>
                Some(HdrV { version: v, alg: a, mode: m, salt: Some(zeros(16)), nonce: b.subrange(6, (6 + nl) as int), slots: Some(s) }) },
        }
    } } } } } }
}
/// well-formed: what parsing can return
pub open spec fn wf(h: HdrV) -> bool {
    &&& h.nonce.len() == nlen(h.alg, h.mode)
    &&& (h.salt is Some ==> h.salt.unwrap().len() == 16)
    &&& (h.version is V4 || h.version is V5 ==> h.slots is Some)
    &&& (h.slots matches Some(s) ==> s.len() <= 4 && forall|i: int| 0 <= i < s.len() ==> #[trigger] wf_slot(h.alg, s[i]))
}
pub open spec fn wf_slot(a: Algorithm, s: SlotV) -> bool { known(s.alg) && s.ek.len() == 48 && s.nonce.len() == mklen(a) && s.salt.len() == 16 }
/// what can be written without losing anything
pub open spec fn writable(h: HdrV) -> bool {
    &&& wf(h)
    &&& match h.version {
        HeaderVersion::V3 => h.salt is Some && h.slots is None,
        HeaderVersion::V4 => h.slots.unwrap().len() == 1 && h.slots.unwrap()[0].alg == HashingAlgorithm::Blake3Balloon(4) && (h.salt matches Some(s) ==> s == h.slots.unwrap()[0].salt),
        HeaderVersion::V5 => h.salt is None || h.salt == Some(zeros(16)),
        _ => false,
    }
}
/// the precondition of serializing: no more than what keeps it from panicking
pub open spec fn can_ser(h: HdrV) -> bool {
    match h.version {
        HeaderVersion::V3 => h.salt is Some && nlen(h.alg, h.mode) <= 26,
        HeaderVersion::V4 => h.slots is Some && h.slots.unwrap().len() >= 1,
        HeaderVersion::V5 => h.slots is Some && h.slots.unwrap().len() <= 4,
        _ => true,
    }
}
/// as read back: the salt is always there
pub open spec fn norm(h: HdrV) -> HdrV {
    HdrV { salt: match h.version { HeaderVersion::V5 => Some(zeros(16)), HeaderVersion::V4 => Some(v4salt(h)), _ => h.salt }, ..h }
}
pub proof fn ser_slots_len(a: Algorithm, s: Seq<SlotV>, n: nat)
    requires n <= s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] wf_slot(a, s[i])
    ensures ser_slots(a, s, n).len() == 96 * n
    decreases n
{ if n > 0 { ser_slots_len(a, s, (n - 1) as nat); assert(wf_slot(a, s[n - 1])); } }
pub proof fn ser_slots_at(a: Algorithm, s: Seq<SlotV>, n: nat, k: int)
    requires n <= s.len(), 0 <= k < n, forall|i: int| 0 <= i < s.len() ==> #[trigger] wf_slot(a, s[i])
    ensures ser_slots(a, s, n).len() == 96 * n, ser_slots(a, s, n).subrange(96 * k, 96 * k + 96) == ser_slot(a, s[k])
    decreases n
{
    ser_slots_len(a, s, n); ser_slots_len(a, s, (n - 1) as nat); assert(wf_slot(a, s[n - 1])); assert(wf_slot(a, s[k]));
    if k < n - 1 {
        ser_slots_at(a, s, (n - 1) as nat, k);
        assert(ser_slots(a, s, n).subrange(96 * k, 96 * k + 96) =~= ser_slots(a, s, (n - 1) as nat).subrange(96 * k, 96 * k + 96));
    } else { assert(ser_slots(a, s, n).subrange(96 * k, 96 * k + 96) =~= ser_slot(a, s[k])); }
}
pub proof fn ser_len(h: HdrV)
    requires writable(h) ensures ser(h).len() == hsize(h.version)
{ match h.version { HeaderVersion::V5 => { ser_slots_len(h.alg, h.slots.unwrap(), h.slots.unwrap().len()); } HeaderVersion::V4 => { assert(wf_slot(h.alg, h.slots.unwrap()[0])); } _ => {} } }
pub proof fn slots_back(h: HdrV, tail: Seq<u8>, n: nat)
    requires writable(h), h.version is V5, n <= 4
    ensures ({ let s = h.slots.unwrap(); p_slots(ser(h) + tail, mklen(h.alg), n) == Some(s.take(if n < s.len() { n as int } else { s.len() as int })) })
    decreases n
{
    let s = h.slots.unwrap(); let b = ser(h) + tail; let o = 32 + 96 * (n - 1);
    ser_len(h); ser_slots_len(h.alg, s, s.len());
    if n == 0 { assert(s.take(0) =~= Seq::empty()); }
    else {
        slots_back(h, tail, (n - 1) as nat);
        let head = tags(h) + h.nonce + pad(h);
        let sl = ser_slots(h.alg, s, s.len());
        if n <= s.len() {
            ser_slots_at(h.alg, s, s.len(), n - 1);
            assert(wf_slot(h.alg, s[n - 1]));
            let x = ser_slot(h.alg, s[n - 1]);
            assert forall|i: int| 0 <= i < 96 implies b[o + i] == x[i] by { assert(b[o + i] == sl[96 * (n - 1) + i]); assert(sl.subrange(96 * (n - 1), 96 * (n - 1) + 96)[i] == x[i]); }
            assert(b[o] == x[0]); assert(b[o + 1] == x[1]);
            assert(b.subrange(o + 2, o + 50) =~= s[n - 1].ek) by { assert forall|i: int| 0 <= i < 48 implies b[o + 2 + i] == #[trigger] s[n - 1].ek[i] by { assert(b[o + (2 + i)] == x[2 + i]); } }
            assert(b.subrange(o + 50, (o + 50 + mklen(h.alg)) as int) =~= s[n - 1].nonce) by { assert forall|i: int| 0 <= i < mklen(h.alg) implies b[o + 50 + i] == #[trigger] s[n - 1].nonce[i] by { assert(b[o + (50 + i)] == x[50 + i]); } }
            assert(b.subrange(o + 74, o + 90) =~= s[n - 1].salt) by { assert forall|i: int| 0 <= i < 16 implies b[o + 74 + i] == #[trigger] s[n - 1].salt[i] by { assert(b[o + (74 + i)] == x[74 + i]); } }
            assert(s.take(n - 1).push(s[n - 1]) =~= s.take(n as int));
        } else {
            assert(b[o] == 0);
            assert(s.take(s.len() as int) =~= s);
        }
    }
}
/// serializing and reading back are inverse, whatever follows the header
pub proof fn parse_ser(h: HdrV, tail: Seq<u8>)
    requires writable(h)
    ensures parse(ser(h) + tail) == Some(norm(h)), ser(h).len() == hsize(h.version)
{
    ser_len(h);
    let b = ser(h) + tail;
    assert(b[0] == tag_version(h.version)[0]); assert(b[1] == tag_version(h.version)[1]);
    assert(b[2] == tag_alg(h.alg)[0]); assert(b[3] == tag_alg(h.alg)[1]);
    assert(b[4] == tag_mode(h.mode)[0]); assert(b[5] == tag_mode(h.mode)[1]);
    let nl = nlen(h.alg, h.mode) as int;
    match h.version {
        HeaderVersion::V3 => {
            assert(b.subrange(6, 22) =~= h.salt.unwrap());
            assert(b.subrange(38, 38 + nl) =~= h.nonce);
        }
        HeaderVersion::V4 => {
            let s = h.slots.unwrap();
            assert(wf_slot(h.alg, s[0]));
            assert(v4salt(h) == s[0].salt);
            assert(b.subrange(6, 22) =~= s[0].salt);
            assert(b.subrange(22, 22 + nl) =~= h.nonce);
            assert(b.subrange(48, 96) =~= s[0].ek);
            assert(b.subrange(96, (96 + mklen(h.alg)) as int) =~= s[0].nonce);
            assert(seq![s[0]] =~= s);
        }
        HeaderVersion::V5 => {
            slots_back(h, tail, 4);
            assert(h.slots.unwrap().take(h.slots.unwrap().len() as int) =~= h.slots.unwrap());
            assert(b.subrange(6, 6 + nl) =~= h.nonce);
        }
        _ => {}
    }
}
/// both sides authenticate the same bytes
pub proof fn aad_same(h: HdrV, tail: Seq<u8>)
    requires writable(h)
    ensures aad_dec(h.version, h.alg, ser(h) + tail) == aad_enc(h),
      h.version is V5 ==> aad_enc(h) == (ser(h) + tail).take(32) && aad_enc(h).len() == 32
{
    ser_len(h);
    let b = ser(h) + tail;
    match h.version {
        HeaderVersion::V3 => { assert(b.take(64) =~= ser(h)); }
        HeaderVersion::V4 => {
            assert(wf_slot(h.alg, h.slots.unwrap()[0]));
            let z = zeros((32 - mklen(h.alg)) as nat);
            assert(b.take(48) =~= tags(h) + v4salt(h) + h.nonce + pad(h));
            assert(b.subrange((96 + mklen(h.alg)) as int, 128) =~= z);
        }
        HeaderVersion::V5 => { ser_slots_len(h.alg, h.slots.unwrap(), h.slots.unwrap().len()); assert(b.take(32) =~= tags(h) + h.nonce + pad(h)); }
        _ => {}
    }
}
/// the authenticated part of a V5 header does not depend on its keyslots
pub proof fn aad_v5_indep(h: HdrV, g: HdrV)
    requires h.version is V5, g.version is V5, h.alg == g.alg, h.mode == g.mode, h.nonce == g.nonce
    ensures aad_enc(h) == aad_enc(g)
{ }
pub proof fn p_slots_wf(b: Seq<u8>, a: Algorithm, n: nat)
    requires n <= 4, b.len() >= 416
    ensures p_slots(b, mklen(a), n) matches Some(s) ==> s.len() <= n && forall|i: int| 0 <= i < s.len() ==> #[trigger] wf_slot(a, s[i])
    decreases n
{
    if n > 0 {
        p_slots_wf(b, a, (n - 1) as nat);
        if let Some(s) = p_slots(b, mklen(a), n) { let t = p_slots(b, mklen(a), (n - 1) as nat).unwrap();
            assert forall|i: int| 0 <= i < s.len() implies #[trigger] wf_slot(a, s[i]) by { if i < t.len() { assert(wf_slot(a, t[i])); } } }
    }
}
/// whatever parses is well formed
pub proof fn parse_wf(b: Seq<u8>)
    ensures parse(b) matches Some(h) ==> wf(h) && b.len() >= hsize(h.version)
{ if let Some(h) = parse(b) { if h.version is V5 { p_slots_wf(b, h.alg, 4); } else if h.version is V4 { assert(wf_slot(h.alg, h.slots.unwrap()[0])); } } }
pub proof fn p_slots_none(b: Seq<u8>, nl: nat, n: nat, m: nat)
    requires p_slots(b, nl, n) is None, n <= m ensures p_slots(b, nl, m) is None
    decreases m
{ if m > n { p_slots_none(b, nl, n, (m - 1) as nat); } }
/// only the bytes of the header itself matter
pub proof fn p_slots_local(b: Seq<u8>, c: Seq<u8>, nl: nat, n: nat)
    requires n <= 4, nl <= 24, b.len() >= 416, c.len() >= 416, b.take(416) == c.take(416)
    ensures p_slots(b, nl, n) == p_slots(c, nl, n)
    decreases n
{
    if n > 0 {
        p_slots_local(b, c, nl, (n - 1) as nat);
        let o = 32 + 96 * (n - 1);
        assert forall|i: int| 0 <= i < 416 implies #[trigger] b[i] == c[i] by { assert(b.take(416)[i] == b[i]); assert(c.take(416)[i] == c[i]); }
        assert(b.subrange(o + 2, o + 50) =~= c.subrange(o + 2, o + 50));
        assert(b.subrange(o + 50, (o + 50 + nl) as int) =~= c.subrange(o + 50, (o + 50 + nl) as int));
        assert(b.subrange(o + 74, o + 90) =~= c.subrange(o + 74, o + 90));
    }
}

@fn corecrypto::header::HashingAlgorithm::hash
@params self raw_key salt
@spec
    ensures match r { Ok(k) => kdf(*self, raw_key.data@, salt@) == Some(k.data@), Err(_) => kdf(*self, raw_key.data@, salt@) is None }
@fn corecrypto::header::Keyslot::serialize
@params self
@spec
    ensures r@ =~= slot_tag(self.hash_algorithm)
@fn corecrypto::header::Header::get_tag
@params self
@spec
    ensures r.version@ =~= tag_version(self.header_type.version), r.algorithm@ =~= tag_alg(self.header_type.algorithm), r.mode@ =~= tag_mode(self.header_type.mode)
@fn corecrypto::header::Header::serialize_version
@params self
@spec
    ensures r@ =~= tag_version(self.header_type.version)
@fn corecrypto::header::Header::serialize_algorithm
@params self
@spec
    ensures r@ =~= tag_alg(self.header_type.algorithm)
@fn corecrypto::header::Header::serialize_mode
@params self
@spec
    ensures r@ =~= tag_mode(self.header_type.mode)
@fn corecrypto::header::Header::get_size
@params self
@spec
    ensures r == hsize(self.header_type.version)
@fn corecrypto::header::Header::serialize_v3
@params self tag
@spec
    requires can_ser(self.v()), self.header_type.version is V3, tag.version@ == tag_version(self.header_type.version), tag.algorithm@ == tag_alg(self.header_type.algorithm), tag.mode@ == tag_mode(self.header_type.mode)
    ensures r@ =~= ser(self.v())
@fn corecrypto::header::Header::serialize_v4
@params self tag
@spec
    requires can_ser(self.v()), self.header_type.version is V4, tag.version@ == tag_version(self.header_type.version), tag.algorithm@ == tag_alg(self.header_type.algorithm), tag.mode@ == tag_mode(self.header_type.mode)
    ensures r@ =~= ser(self.v())
@fn corecrypto::header::Header::serialize_v5
@params self tag
@spec
    requires can_ser(self.v()), self.header_type.version is V5, tag.version@ == tag_version(self.header_type.version), tag.algorithm@ == tag_alg(self.header_type.algorithm), tag.mode@ == tag_mode(self.header_type.mode)
    ensures r@ =~= ser(self.v())
@loop 0
    invariant self.keyslots is Some, svs(v__0@) =~= self.v().slots.unwrap(), keyslots@ == v__0@,
        tag.version@ == tag_version(self.header_type.version), tag.algorithm@ == tag_alg(self.header_type.algorithm), tag.mode@ == tag_mode(self.header_type.mode),
        it__0 <= v__0@.len(), v__0@.len() <= 4,
        header_bytes@ =~= tags(self.v()) + self.v().nonce + pad(self.v()) + ser_slots(self.v().alg, self.v().slots.unwrap(), it__0 as nat)
    decreases v__0@.len() - it__0
@loop 1
    invariant self.keyslots is Some, svs(keyslots@) =~= self.v().slots.unwrap(), end__1 == 4 - keyslots@.len(), 0 <= it__1 <= end__1,
        header_bytes@ =~= tags(self.v()) + self.v().nonce + pad(self.v()) + ser_slots(self.v().alg, self.v().slots.unwrap(), self.v().slots.unwrap().len()) + zeros((96 * it__1) as nat)
    decreases end__1 - it__1
@fn corecrypto::header::Header::serialize
@params self
@spec
    requires can_ser(self.v())
    ensures match r { Ok(b) => b@ == ser(self.v()) && !(self.header_type.version is V1 || self.header_type.version is V2), Err(_) => self.header_type.version is V1 || self.header_type.version is V2 }
@fn corecrypto::header::Header::create_aad
@params self
@spec
    requires can_ser(self.v())
    ensures match r { Ok(b) => b@ =~= aad_enc(self.v()) && !(self.header_type.version is V1 || self.header_type.version is V2), Err(_) => self.header_type.version is V1 || self.header_type.version is V2 }
@fn corecrypto::header::Header::write
@params self writer
@spec
    requires can_ser(self.v())
    ensures final(writer).faulty() == old(writer).faulty(), final(writer).id() == old(writer).id(),
      match r {
        Ok(_) => !(self.header_type.version is V1 || self.header_type.version is V2) && wrote(old(writer), final(writer), ser(self.v())),
        Err(_) => old(writer).faulty() || ((self.header_type.version is V1 || self.header_type.version is V2) && same_stream(old(writer), final(writer))),
      }
@fn corecrypto::header::Header::deserialize
@params reader
@attr #[verifier::rlimit(40)]
@spec
    ensures same_but_pos(old(reader), final(reader)),
      ({ let b = from(old(reader).data(), old(reader).pos());
      match r {
        Ok((h, aad)) => parse(b) is Some && same_hdr(parse(b).unwrap(), h.v()) && wf(h.v()) && aad@ =~= aad_dec(h.header_type.version, h.header_type.algorithm, b)
            && final(reader).pos() == old(reader).pos() + hsize(h.header_type.version),
        Err(_) => old(reader).faulty() || parse(b) is None,
      } })
@start
    let ghost b = from(old(reader).data(), old(reader).pos());
    proof { parse_wf(b); }
@loop 0
    invariant
        b == from(old(reader).data(), old(reader).pos()),
        same_but_pos(old(reader), reader),
        b.len() >= 416, p_version(b) == Some(HeaderVersion::V5), p_alg(b) == Some(algorithm), p_mode(b) is Some,
        full_header_bytes@ =~= b.take(416),
        cursor.data() == full_header_bytes@,
        !cursor.faulty(),
        keyslot_nonce_len == mklen(algorithm),
        0 <= it__0 <= 4 && end__0 == 4,
        cursor.pos() == 32 + 96 * it__0,
        p_slots(b, mklen(algorithm), it__0 as nat) matches Some(s) && s =~= svs(keyslots@),
    decreases 4 - it__0
@loop 0 begin
    let ghost n = it__0;
    let ghost ks = keyslots@;
    proof {
        let o = 32 + 96 * n;
        assert(cursor.data()[o] == b[o] && cursor.data()[o + 1] == b[o + 1]);
        if p_slots(b, mklen(algorithm), (n + 1) as nat) is None { p_slots_none(b, mklen(algorithm), (n + 1) as nat, 4); }
        assert forall|k: Keyslot| #[trigger] svs(ks.push(k)) =~= svs(ks).push(k.sv()) by {}
    }
