(* C20 RSA, C21 Paillier, C22 Diffie-Hellman, C29 xor and modular arithmetic. *)
open Cryptokit
module G = Gen0
type ('a,'b) result = ('a,'b) Stdlib.result = Ok of 'a | Error of 'b
let spf = Printf.sprintf
let num = Work.num and be = Work.be
let bytes_of bits = (bits + 7) / 8
let rng_of g : Random.rng = if G.bool g then Random.pseudo_rng (G.raw g 32) else Random.pseudo_rng_aes_ctr (G.raw g 16)
(* a generator given by the caller, with structured output: constant or sparse bytes first, so that the library's
   corner cases (top bits, low bits, equal factors) are met *)
let odd_rng g : Random.rng =
  let base = Random.pseudo_rng (G.raw g 32) in
  let left = ref (G.int g 5) and c = Char.chr (G.pick g [| 0; 255; 1; 128; 254 |]) in
  object
    method random_bytes b o n =
      if !left > 0 then begin decr left; Bytes.fill b o n c end else base#random_bytes b o n
    method wipe = ()
  end
let any_rng g = if G.chance g 4 then odd_rng g else rng_of g
let is_prime z = Z.probab_prime z 30 > 0
let ck key b = Mon.seen key; if not b then Mon.fail "%s" key
let eqz key a b = Mon.seen key; if not (Z.equal a b) then Mon.fail "%s: %s <> %s" key (Z.to_string a) (Z.to_string b)

(* ---------------- RSA ---------------- *)
let rsa_bits g = match G.int g 6 with
  | 0 -> 32 + 2 * G.int g 17 | 1 -> 2 * G.range g 16 64 | 2 -> 2 * G.range g 64 200
  | 3 -> 64 * G.range g 1 8 | 4 -> 16 * G.range g 2 32 | _ -> 2 * G.range g 16 300
let check_rsa what bits e_req (k : RSA.private_key) (pub : RSA.public_key) =
  let w fmt = Printf.ksprintf (fun s -> spf "rsa-%s: %s (bits=%d)" what s bits) fmt in
  let open RSA in
  let n = num pub.n and e = num pub.e and n' = num k.n and d = num k.d and p = num k.p and q = num k.q in
  let dp = num k.dp and dq = num k.dq and qinv = num k.qinv in
  ck (w "size fields") (k.size = bits && pub.size = bits);
  ck (w "width of modulus") (String.length k.n = bytes_of bits && String.length pub.n = bytes_of bits);
  ck (w "width of private exponent") (String.length k.d = bytes_of bits);
  let h = bytes_of (bits / 2) in
  ck (w "width of CRT components") (List.for_all (fun s -> String.length s = h) [k.p; k.q; k.dp; k.dq; k.qinv]);
  eqz (w "public and private moduli agree") n n';
  eqz (w "n = p.q") n (Z.mul p q);
  ck (w "p and q distinct") (not (Z.equal p q));
  ck (w "p has half the size") (Z.numbits p = bits / 2);
  ck (w "q has half the size") (Z.numbits q = bits / 2);
  ck (w "p is prime") (is_prime p); ck (w "q is prime") (is_prime q);
  let p1 = Z.pred p and q1 = Z.pred q in
  (match e_req with Some x -> eqz (w "public exponent is the requested one") e (Z.of_int x) | None -> ());
  ck (w "e is invertible") (Z.equal (Z.gcd e p1) Z.one && Z.equal (Z.gcd e q1) Z.one);
  ck (w "e is not trivial") (Z.gt e Z.one);
  eqz (w "e.d = 1 mod p-1") (Z.erem (Z.mul e d) p1) Z.one;
  eqz (w "e.d = 1 mod q-1") (Z.erem (Z.mul e d) q1) Z.one;
  eqz (w "dp = d mod p-1") dp (Z.erem d p1);
  eqz (w "dq = d mod q-1") dq (Z.erem d q1);
  eqz (w "q.qinv = 1 mod p") (Z.erem (Z.mul q qinv) p) Z.one;
  n, e, d, p, q
let rsa_msgs g bits n p q =
  let r () = Z.erem (num (G.raw g (bytes_of bits + 2))) n in
  [ "0", Z.zero; "1", Z.one; "n-1", Z.pred n; "2", Z.of_int 2; "p", p; "q", q; "kp", Z.erem (Z.mul p (r ())) n;
    "kq", Z.erem (Z.mul q (r ())) n; "small", Z.of_int (G.int g 100000); "rand", r (); "rand2", r ();
    "n-small", Z.sub n (Z.of_int (1 + G.int g 300)) ]
(* the same number in another big-endian spelling *)
let spell g bits z =
  let m = (Z.numbits z + 7) / 8 in
  match G.int g 4 with
  | 0 -> be m z | 1 -> be (max m (bytes_of bits)) z | 2 -> be (max m (bytes_of bits) + G.int g 9) z | _ -> be (m + G.int g 5) z
let rsa_fam i g =
  let bits = rsa_bits g in
  let e = match G.int g 5 with 0 -> None | 1 -> Some 3 | 2 -> Some 65537 | 3 -> Some 17
                             | _ -> Some (2 * G.range g 2 2000000 + 1) in
  let key () = RSA.new_key ~rng:(any_rng g) ?e bits in
  let k, pub = key () in
  let n, ez, dz, p, q = check_rsa "new_key" bits e k pub in
  List.iter (fun (nm, m) ->
      if Z.lt m n then begin
        let s = spell g bits m in
        let w = be (bytes_of bits) m in
        let keyname = spf "rsa/%d/%s/%s" bits (match e with None -> "rand" | Some _ -> "given") nm in
        let c = RSA.encrypt pub s in
        Mon.check_eq (keyname ^ "/encrypt") ~got:c ~want:(be (bytes_of bits) (Z.powm m ez n));
        Mon.check_eq (keyname ^ "/decrypt") ~got:(RSA.decrypt k c) ~want:w;
        Mon.check_eq (keyname ^ "/decrypt_CRT") ~got:(RSA.decrypt_CRT k c) ~want:w;
        let sg = RSA.sign k s and sg2 = RSA.sign_CRT k s in
        Mon.check_eq (keyname ^ "/sign") ~got:sg ~want:(be (bytes_of bits) (Z.powm m dz n));
        Mon.check_eq (keyname ^ "/sign_CRT") ~got:sg2 ~want:sg;
        Mon.check_eq (keyname ^ "/unwrap") ~got:(RSA.unwrap_signature pub sg) ~want:w
      end) (rsa_msgs g bits n p q);
  (* messages not below the modulus *)
  List.iter (fun z ->
      let s = spell g bits z in
      List.iter (fun (nm, f) ->
          Mon.seen (spf "rsa-too-long/%s/%d" nm bits);
          match Mon.catch (fun () -> f s) with
          | Error "Message_too_long" -> ()
          | Error e -> Mon.fail "RSA.%s of a message >= n raises %s" nm e
          | Ok r -> Mon.fail "RSA.%s (%d bits) accepted a message >= n" nm bits)
        [ "encrypt", RSA.encrypt pub; "decrypt", RSA.decrypt k; "decrypt_CRT", RSA.decrypt_CRT k;
          "sign", RSA.sign k; "sign_CRT", RSA.sign_CRT k; "unwrap_signature", RSA.unwrap_signature pub ])
    [ n; Z.succ n; Z.add n (Z.of_int (G.int g 1000)); Z.mul n (Z.of_int 2); num (String.make (bytes_of bits + 1) '\255') ];
  Mon.seen "rsa-key-material-untouched";
  ignore (check_rsa "after use" bits e k pub)
(* keys made by others: components minimally encoded or zero-padded *)
let rsa_foreign i g =
  let bits = 2 * G.range g 16 200 in
  let k, pub = RSA.new_key ~rng:(rng_of g) ~e:65537 bits in
  let re s = let z = num s in be ((Z.numbits z + 7) / 8 + G.int g 3) z in
  let k = RSA.{ k with n = re k.n; d = re k.d; p = re k.p; q = re k.q; dp = re k.dp; dq = re k.dq; qinv = re k.qinv }
  and pub = RSA.{ pub with n = re pub.n; e = re pub.e } in
  (* swapping the roles of p and q gives an equally valid key *)
  let k = if G.bool g then k else
      let p = num k.RSA.q and q = num k.RSA.p in
      RSA.{ k with p = k.q; q = k.p; dp = k.dq; dq = k.dp; qinv = be (bytes_of bits) (Z.invert q p) } in
  let n = num pub.RSA.n in
  for _ = 1 to 5 do
    let m = Z.erem (num (G.raw g (bytes_of bits))) n in
    let w = be (bytes_of bits) m in
    let c = RSA.encrypt pub w in
    Mon.check_eq (spf "rsa-foreign/%d/decrypt" bits) ~got:(RSA.decrypt k c) ~want:w;
    Mon.check_eq (spf "rsa-foreign/%d/decrypt_CRT" bits) ~got:(RSA.decrypt_CRT k c) ~want:w;
    Mon.check_eq (spf "rsa-foreign/%d/sign" bits) ~got:(RSA.unwrap_signature pub (RSA.sign_CRT k w)) ~want:w
  done
let rsa_big i g =
  let bits = G.pick g [| 1024; 2048; 1088; 1536; 768 |] in
  let e = if G.bool g then Some 65537 else None in
  let k, pub = RSA.new_key ~rng:(rng_of g) ?e bits in
  let n, ez, dz, p, q = check_rsa "new_key" bits e k pub in
  for _ = 1 to 3 do
    let m = Z.erem (num (G.raw g (bytes_of bits))) n in
    let w = be (bytes_of bits) m in
    let c = RSA.encrypt pub w in
    Mon.check_eq (spf "rsa-big/%d/decrypt" bits) ~got:(RSA.decrypt k c) ~want:w;
    Mon.check_eq (spf "rsa-big/%d/decrypt_CRT" bits) ~got:(RSA.decrypt_CRT k c) ~want:w;
    Mon.check_eq (spf "rsa-big/%d/sign" bits) ~got:(RSA.unwrap_signature pub (RSA.sign_CRT k w)) ~want:w
  done
(* several keys from one generator are different *)
let rsa_fresh i g =
  let rng = rng_of g in
  let seen = Hashtbl.create 10 in
  for _ = 1 to 4 do
    let k, pub = RSA.new_key ~rng ~e:65537 (2 * G.range g 64 100) in
    List.iter (fun p ->
        Mon.seen "rsa-fresh-factors";
        if Hashtbl.mem seen p then Mon.fail "RSA.new_key returned the same factor twice"; Hashtbl.add seen p ())
      [k.RSA.p; k.RSA.q]
  done

(* ---------------- Paillier ---------------- *)
let pail_bits g = match G.int g 4 with 0 -> 32 + 2 * G.int g 17 | 1 -> 2 * G.range g 16 128 | 2 -> 64 * G.range g 1 4 | _ -> 2 * G.range g 16 80
let paillier_fam i g =
  let bits = pail_bits g in
  let k, pub = Paillier.new_key ~rng:(any_rng g) bits in
  let w s = spf "paillier-%s (bits=%d)" s bits in
  let open Paillier in
  let n = num pub.n and n2 = num pub.n2 and gg = num pub.g in
  let p = num k.p and q = num k.q in
  eqz (w "n = p.q") n (Z.mul p q); eqz (w "private n") (num k.n) n; eqz (w "n2") n2 (Z.mul n n); eqz (w "private n2") (num k.n2) n2;
  ck (w "p, q distinct primes of half the size") (not (Z.equal p q) && is_prime p && is_prime q && Z.numbits p = bits / 2 && Z.numbits q = bits / 2);
  eqz (w "lambda") (num k.lambda) (Z.lcm (Z.pred p) (Z.pred q));
  ck (w "size fields") (k.size = bits && pub.size = bits);
  let rng = any_rng g in
  let enc m =
    let r = encrypt ~rng pub (spell g bits m) in
    ck (w "ciphertext below n2") (Z.lt (num r) n2);
    ck (w "ciphertext invertible") (Z.equal (Z.gcd (num r) n) Z.one); r in
  let msgs = [ "0", Z.zero; "1", Z.one; "n-1", Z.pred n; "p", p; "q", q; "small", Z.of_int (G.int g 60000);
               "rand", Z.erem (num (G.raw g (bytes_of bits + 2))) n; "rand", Z.erem (num (G.raw g (bytes_of bits + 2))) n ] in
  let cts = List.map (fun (nm, m) ->
      let c = enc m in
      eqz (spf "paillier/%d/roundtrip-%s" bits nm) (num (decrypt k c)) m;
      (m, c)) msgs in
  (* two encryptions of one message *)
  List.iter (fun (m, c) ->
      let c' = enc m in
      ck (w "encrypting twice gives different ciphertexts") (bits < 64 || not (Z.equal (num c) (num c')));
      (* their quotient is an encryption of zero with fresh blinding *)
      eqz (w "second encryption decrypts") (num (decrypt k c')) m) [List.nth cts 0; List.nth cts 6];
  (* sums *)
  for _ = 1 to 4 do
    let cnt = G.range g 2 7 in
    let m, c = ref (fst (List.hd cts)), ref (snd (List.hd cts)) in
    let m0, c0 = G.pickl g cts in m := m0; c := c0;
    for _ = 2 to cnt do
      let m1, c1 = G.pickl g cts in
      m := Z.erem (Z.add !m m1) n;
      c := if G.bool g then add pub !c c1 else add pub c1 !c
    done;
    eqz (spf "paillier/%d/sum-of-%d" bits cnt) (num (decrypt k !c)) !m
  done
(* blinding is unrelated: r^n component varies and has full order support *)
let paillier_blind i g =
  let bits = 2 * G.range g 40 80 in
  let rng = rng_of g in
  let k, pub = Paillier.new_key ~rng bits in
  let m = G.raw g 4 in
  let seen = Hashtbl.create 30 in
  for _ = 1 to 25 do
    let c = Paillier.encrypt ~rng pub m in
    Mon.seen "paillier-fresh-blinding";
    if Hashtbl.mem seen (num c) then Mon.fail "Paillier.encrypt produced the same ciphertext twice";
    Hashtbl.add seen (num c) ();
    eqz "paillier-blind-roundtrip" (num (Paillier.decrypt k c)) (num m);
    (* not the unblinded g^m *)
    if Z.equal (num c) (Z.powm (num pub.Paillier.g) (num m) (num pub.Paillier.n2)) then
      Mon.fail "Paillier.encrypt produced an unblinded ciphertext"
  done

(* the encryption draws numbers that are no units modulo n, or zero: the result must be a valid ciphertext all the same *)
let paillier_hostile i g =
  let bits = if G.bool g then 32 + 2 * G.int g 8 else pail_bits g in
  let k, pub = Paillier.new_key ~rng:(rng_of g) bits in
  let n = num pub.Paillier.n and p = num k.Paillier.p and q = num k.Paillier.q in
  let base = rng_of g in
  let left = ref 0 in
  let rng = object
    method random_bytes b o len =
      if !left > 0 then begin
        decr left;
        let f = if G.bool g then p else q in
        let m = match G.int g 5 with
          | 0 -> Z.zero | 1 -> n | 2 -> f
          | 3 -> (* a multiple of exactly bits-1 bits *)
            let lo = Z.cdiv (Z.shift_left Z.one (bits - 2)) f and hi = Z.fdiv (Z.pred (Z.shift_left Z.one (bits - 1))) f in
            Z.mul f (Z.add lo (Z.erem (num (G.raw g 12)) (Z.succ (Z.sub hi lo))))
          | _ -> Z.mul f (Z.erem (num (G.raw g 8)) (Z.of_int 1000)) in
        (* in whichever byte order the library reads it *)
        let s = be len (Z.erem m (Z.shift_left Z.one (8 * len))) in
        let s = if G.chance g 3 then s else String.init len (fun i -> s.[len - 1 - i]) in
        Bytes.blit_string s 0 b o len
      end else base#random_bytes b o len
    method wipe = () end in
  for _ = 1 to 12 do
    left := G.int g 4;
    let m = Z.erem (num (G.raw g (bytes_of bits))) n in
    let c = Paillier.encrypt ~rng pub (spell g bits m) in
    Mon.event "paillier_nonunit_draws" 1;
    ck (spf "paillier-hostile/%d: ciphertext invertible" bits) (Z.equal (Z.gcd (num c) n) Z.one);
    eqz (spf "paillier-hostile/%d: roundtrip" bits) (num (Paillier.decrypt k c)) m
  done
(* tiny keys: a random draw shares a factor with n about once in 30000 *)
let paillier_tiny i g =
  let rng = rng_of g in
  let k, pub = Paillier.new_key ~rng 32 in
  let n = num pub.Paillier.n in
  for j = 1 to 4000 do
    let m = Z.of_int (G.int g 1_000_000_000) in
    let m = Z.erem m n in
    let c = Paillier.encrypt ~rng pub (be 4 m) in
    eqz "paillier-tiny: roundtrip" (num (Paillier.decrypt k c)) m
  done

(* ---------------- DH ---------------- *)
let modp1 = "FFFFFFFFFFFFFFFFC90FDAA22168C234C4C6628B80DC1CD129024E088A67CC74020BBEA63B139B22514A08798E3404DDEF9519B3CD3A431B302B0A6DF25F14374FE1356D6D51C245E485B576625E7EC6F44C42E9A63A3620FFFFFFFFFFFFFFFF"
let check_dh what g (p : DH.parameters) mkrng1 mkrng2 =
  let open DH in
  let w s = spf "dh-%s: %s (|p|=%d bytes, privlen=%d)" what s (String.length p.p) p.privlen in
  let len = String.length p.p in
  let np = num p.p and ng = num p.g in
  let a = private_secret ~rng:(mkrng1 ()) p and b = private_secret ~rng:(mkrng2 ()) p in
  let ma = message p a and mb = message p b in
  ck (w "length of messages") (String.length ma = len && String.length mb = len);
  Mon.check_eq (w "message is a function of the secret") ~got:(message p a) ~want:ma;
  let s1 = shared_secret p a mb in
  let s2 = shared_secret p b ma in
  ck (w "length of shared secrets") (String.length s1 = len);
  Mon.check_eq (w "both parties agree") ~got:s1 ~want:s2;
  (* against a party whose exponent is known *)
  let k = Z.succ (num (G.raw g (G.range g 1 (len + 2)))) in
  let known = be (len + (if G.bool g then 0 else G.int g 3)) (Z.powm ng k np) in
  let a' = private_secret ~rng:(mkrng1 ()) p in
  Mon.check_eq (w "same generator output, same secret") ~got:(message p a') ~want:ma;
  Mon.check_eq (w "secret = g^(ak) mod p") ~got:(shared_secret p a' known) ~want:(be len (Z.powm (num ma) k np));
  if p.privlen <= 11 then begin
    let lo = 1 lsl (p.privlen - 1) in
    let rec find e x = if e >= 2 * lo then false else Z.equal x (num ma) || find (e + 1) (Z.erem (Z.mul x ng) np) in
    ck (w "message = g^a mod p for a secret of privlen bits") (find lo (Z.powm ng (Z.of_int lo) np))
  end
let seeded g =
  let s = G.raw g 32 and k = G.next g in
  let odd = G.chance g 4 in
  fun () -> if odd then odd_rng (G.make [k]) else Random.pseudo_rng (String.concat "" [s; ""])
let dh_fam i g =
  let bits = match G.int g 4 with 0 -> G.range g 32 80 | 1 -> G.range g 33 300 | 2 -> 64 * G.range g 1 5 | _ -> 8 * G.range g 5 60 in
  let privlen = match G.int g 4 with 0 -> bits - 1 | 1 -> G.range g 1 (bits - 1) | 2 -> min (bits - 1) 160 | _ -> G.range g 1 11 in
  let p = if bits > 160 && G.chance g 3 then DH.new_parameters ~rng:(any_rng g) bits else DH.new_parameters ~rng:(any_rng g) ~privlen bits in
  let np = num p.DH.p and ng = num p.DH.g in
  ck (spf "dh-parameters prime of %d bits" bits) (is_prime np && Z.numbits np = bits);
  ck (spf "dh-parameters width %d" bits) (String.length p.DH.p = bytes_of bits && String.length p.DH.g = bytes_of bits);
  ck (spf "dh-parameters generator range") (Z.gt ng Z.one && Z.lt ng np);
  check_dh "generated" g p (seeded g) (seeded g)
let dh_fixed i g =
  let np = match G.int g 4 with
    | 0 -> Z.of_string ("0x" ^ modp1)
    | 1 -> Z.pred (Z.shift_left Z.one 127)
    | 2 -> Z.sub (Z.shift_left Z.one 255) (Z.of_int 19)
    | _ -> Z.nextprime (num ("\255" ^ G.raw g (G.range g 3 40))) in
  let l = (Z.numbits np + 7) / 8 + G.int g 4 in
  let gz = if G.bool g then Z.of_int (G.pick g [| 2; 3; 5; 7 |]) else Z.add (Z.of_int 2) (Z.erem (num (G.raw g 8)) (Z.sub np (Z.of_int 3))) in
  let p = DH.{ p = be l np; g = (if G.bool g then be l gz else be ((Z.numbits gz + 7) / 8) gz); privlen = G.range g 1 (Z.numbits np) } in
  check_dh "fixed" g p (seeded g) (seeded g)
let derive_fam i g =
  let s = G.str g (G.len g 150) in
  let div = if G.bool g then None else Some (G.str g (G.int g 40)) in
  let n = match G.int g 4 with 0 -> G.int g 4 | 1 -> 32 * G.range g 1 12 + G.range g (-1) 1 | 2 -> G.int g 400 | _ -> if G.chance g 20 then 32 * 1200 + 5 else G.int g 64 in
  let want =
    let b = Buffer.create n and c = ref 1 in
    while Buffer.length b < n do
      Buffer.add_string b (Rf.digest Rf.k_sha256 ((match div with None -> "" | Some d -> d) ^ s ^ string_of_int !c)); incr c
    done; Buffer.sub b 0 n in
  let s' = Bytes.to_string (Bytes.of_string s) in
  Mon.check_eq (spf "derive_key/%d/div%s" n (match div with None -> "-" | Some d -> string_of_int (String.length d)))
    ~got:(DH.derive_key ?diversification:div s n) ~want;
  Mon.check_eq "derive_key leaves the secret alone" ~got:s ~want:s'

(* ---------------- C29 ---------------- *)
let xor_fam i g =
  let n = if G.chance g 300 then G.pick g [| 65536; 1 lsl 17; 1 lsl 20; 1 lsl 21 |] + G.range g (-9) 9000 else
    match G.int g 4 with 0 -> G.int g 20 | 1 -> G.int g 70 | 2 -> G.len g 5000 | _ -> G.int g 40 in
  let o1 = G.int g 20 and o2 = G.int g 20 in
  let t1 = G.int g 12 and t2 = G.int g 12 in
  let s = G.raw g (o1 + n + t1) and d0 = G.raw g (o2 + n + t2) in
  let want = String.sub d0 0 o2 ^ Rf.xor (String.sub s o1 n) (String.sub d0 o2 n) ^ String.sub d0 (o2 + n) t2 in
  let key = spf "%d/%d/%d" n (o1 land 7) (o2 land 7) in
  let d = Bytes.of_string d0 in
  xor_string s o1 d o2 n;
  Mon.check_eq ("xor_string/" ^ key) ~got:(Bytes.to_string d) ~want;
  let d = Bytes.of_string d0 and sb = Bytes.of_string s in
  xor_bytes sb o1 d o2 n;
  Mon.check_eq ("xor_bytes/" ^ key) ~got:(Bytes.to_string d) ~want;
  Mon.check_eq "xor_bytes source" ~got:(Bytes.to_string sb) ~want:s;
  (* far into buffers of more than 4 GB *)
  if G.chance g 20 && Mon.far_fits n then begin
    let x = String.sub s o1 n and y = String.sub d0 o2 n in
    let put ?dst z = if G.bool g then Mon.far_put ?dst g z else Bytes.of_string (String.make o1 '-' ^ z), o1 in
    let sb, so = put x in
    let db, d_o = put ~dst:true y in
    if abs (so - d_o) >= n || sb != db then begin
      if G.bool g then xor_bytes sb so db d_o n else xor_string (Bytes.unsafe_to_string sb) so db d_o n;
      Mon.check_eq (spf "xor far/%b/%b" (so > 100) (d_o > 100)) ~got:(Bytes.sub_string db d_o n) ~want:(Rf.xor x y);
      Mon.check_eq "xor far source" ~got:(Bytes.sub_string sb so n) ~want:x
    end
  end;
  (* twice is the identity *)
  xor_bytes sb o1 d o2 n;
  Mon.check_eq "xor_bytes twice" ~got:(Bytes.to_string d) ~want:d0;
  (* identical slices of one buffer *)
  let d = Bytes.of_string d0 in
  xor_bytes d o2 d o2 n;
  Mon.check_eq ("xor_bytes self/" ^ key) ~got:(Bytes.to_string d) ~want:(String.sub d0 0 o2 ^ String.make n '\000' ^ String.sub d0 (o2 + n) t2);
  (* disjoint slices of one buffer, in both orders, adjacent or not *)
  let gap = if G.bool g then 0 else G.int g 9 in
  let both = G.raw g (o1 + n + gap + n + t1) in
  let p1 = o1 and p2 = o1 + n + gap in
  let p1, p2 = if G.bool g then p1, p2 else p2, p1 in
  let want = Bytes.of_string both in
  String.iteri (fun k c -> Bytes.set want (p2 + k) c) (Rf.xor (String.sub both p1 n) (String.sub both p2 n));
  let d = Bytes.of_string both in
  xor_bytes d p1 d p2 n;
  Mon.check_eq (spf "xor_bytes disjoint/%d/gap%d/%b" n gap (p1 < p2)) ~got:(Bytes.to_string d) ~want:(Bytes.to_string want)
(* a few lengths at all alignments *)
let xor_grid i g =
  let n = i in
  for a = 0 to 8 do
    for b = 0 to 8 do
      let s = G.raw g (a + n + 3) and d0 = G.raw g (b + n + 9) in
      let want = String.sub d0 0 b ^ Rf.xor (String.sub s a n) (String.sub d0 b n) ^ String.sub d0 (b + n) 9 in
      let d = Bytes.of_string d0 in
      xor_string s a d b n;
      Mon.check_eq (spf "xor-grid/%d/%d/%d" n a b) ~got:(Bytes.to_string d) ~want;
      let d = Bytes.of_string d0 in
      xor_bytes (Bytes.of_string s) a d b n;
      Mon.check_eq "xor-grid-bytes" ~got:(Bytes.to_string d) ~want
    done
  done
(* slices longer than 2^31 and 2^32 bytes *)
let xor_huge i g =
  if Mon.first () then begin
    let n = (if i = 0 then 1 lsl 31 else 1 lsl 32) + 8 * G.range g 1 20 + G.range g 1 7 in
    let o1 = G.int g 16 and o2 = G.int g 16 in
    let s = Bytes.create (o1 + n + 8) and d = Bytes.create (o2 + n + 16) in
    let a k = Int64.of_int (k * 0x1e3779b97f4a7c15 lxor (k lsr 7)) and b k = Int64.of_int (k * 0x3f58476d1ce4e5b9 lxor (k lsl 9)) in
    for k = 0 to n / 8 do Bytes.set_int64_le s (o1 + 8 * k) (a k); Bytes.set_int64_le d (o2 + 8 * k) (b k) done;
    let tail = Bytes.sub_string d (o2 + n) 8 and head = Bytes.sub_string d 0 o2 in
    (if G.bool g then xor_bytes s o1 d o2 n else xor_string (Bytes.unsafe_to_string s) o1 d o2 n);
    Mon.seen (spf "xor of more than 2^%d bytes" (31 + i)); Mon.event "huge_bytes_xored" n;
    for k = 0 to n / 8 - 1 do
      if Bytes.get_int64_le d (o2 + 8 * k) <> Int64.logxor (a k) (b k) then
        Mon.fail "xor of %d bytes at offsets %d, %d: wrong at byte %d of the range" n o1 o2 (8 * k)
    done;
    Mon.check_eq "huge xor/outside" ~got:(Bytes.sub_string d 0 o2 ^ Bytes.sub_string d (o2 + n) 8) ~want:(head ^ tail);
    for k = n / 8 * 8 to n - 1 do
      let byte f = Int64.to_int (Int64.shift_right_logical (f (k / 8)) (8 * (k land 7))) land 255 in
      if Char.code (Bytes.get d (o2 + k)) <> byte a lxor byte b then Mon.fail "xor of %d bytes: wrong at the last bytes" n
    done
  end
let bignum g maxbytes =
  let n = match G.int g 4 with 0 -> G.int g 9 | 1 -> 8 * G.int g 9 + G.range g (-1) 1 | 2 -> G.int g 40 | _ -> G.int g maxbytes in
  let n = max 0 n in
  let s = G.str g n in
  match G.int g 3 with 0 -> String.make (G.int g 10) '\000' ^ s | _ -> s
let odd_modulus g =
  let rec go () =
    let s = bignum g 80 in
    let n = String.length s in
    if n = 0 then go () else
      let b = Bytes.of_string s in
      Bytes.set b (n - 1) (Char.chr (Char.code s.[n - 1] lor 1));
      let s = Bytes.to_string b in
      if Z.equal (num s) Z.one && not (G.chance g 20) then go () else s in
  go ()
let modpow_fam i g =
  let c = odd_modulus g in
  let nc = num c in
  let a = match G.int g 5 with
    | 0 -> be (String.length c) (Z.pred nc) | 1 -> be (G.int g 3) Z.zero | 2 -> "\001"
    | _ -> let z = Z.erem (num (bignum g 90)) nc in be ((Z.numbits z + 7) / 8 + G.int g 4) z in
  let b = bignum g 40 in
  let b = if Z.equal (num b) Z.zero && not (G.chance g 3) then "\003" else b in
  let a' = String.concat "" [a] and b' = String.concat "" [b] and c' = String.concat "" [c] in
  Mon.check_eq (spf "mod_power/%d/%d/%d/%b" (String.length a) (String.length b) (String.length c) (Z.equal (num b) Z.zero))
    ~got:(mod_power a b c) ~want:(be (String.length c) (Z.powm (num a) (num b) nc));
  let x = bignum g 90 and y = bignum g 90 in
  let c2 = if G.bool g then c else (let rec m () = let s = bignum g 80 in if Z.equal (num s) Z.zero then m () else s in m ()) in
  Mon.check_eq (spf "mod_mult/%d/%d/%d" (String.length x) (String.length y) (String.length c2))
    ~got:(mod_mult x y c2) ~want:(be (String.length c2) (Z.erem (Z.mul (num x) (num y)) (num c2)));
  Mon.check_eq "mod_power operands" ~got:(a ^ b ^ c) ~want:(a' ^ b' ^ c')

let f name quick thorough run = { Mon.name; quick; thorough; run }
let props = [
  "C20", [ f "rsa" 6400 12800 rsa_fam; f "foreign-keys" 2400 4800 rsa_foreign; f "rsa-big" 160 320 rsa_big; f "fresh" 400 800 rsa_fresh ];
  "C21", [ f "paillier" 2880 8000 paillier_fam; f "blinding" 240 600 paillier_blind;
           f "non-units" 7200 20000 paillier_hostile; f "tiny-keys" 480 1600 paillier_tiny ];
  "C22", [ f "dh" 6400 12800 dh_fam; f "dh-fixed" 4000 8000 dh_fixed; f "derive" 16000 32000 derive_fam ];
  "C29", [ f "xor" 24000 400000 xor_fam; f "xor-grid" 140 400 xor_grid; f "xor-huge" 2 2 xor_huge; f "modular" 24000 400000 modpow_fam ];
]
