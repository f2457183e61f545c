(* C12 C13 C14 C16: memory safety, purity, collection schedules, independence *)
open Cryptokit
open Zoo
module G = Gen0
type ('a, 'b) result = ('a, 'b) Stdlib.result = Ok of 'a | Error of 'b
let fam name quick thorough run = { Mon.name; quick; thorough; run }
let spf = Printf.sprintf
let small_minor = lazy (Gc.set { (Gc.get ()) with Gc.minor_heap_size = 8192 })

(* run a scenario, giving its transcript; any unexpected exception is part of it *)
let transcript ?(i = -1) g =
  let b = Buffer.create 200 in
  let i = if i < 0 then G.int g Work.n_sc else i mod Work.n_sc in
  let name, sc = Work.scenarios.(i) in
  match sc g b with
  | (what, got, want) -> name, Buffer.contents b, what, got, want
  | exception (Mon.Violation _ as e) -> raise e
  | exception e -> name, Buffer.contents b ^ "!" ^ Mon.exn_name e, "", "", ""

(* ---------- C12 ---------- *)
let c12_workload mode i g =
  Mon.arena_set mode;
  let name = ref "" in
  for k = 0 to 3 do
    let n, _, _, _, _ = transcript ~i:(i + k) g in name := n;
  done;
  Mon.arena_set 0;
  let bad = Mon.arena_check () in
  Mon.check (spf "red zones after %s (mode %d)" !name mode) (bad = 0);
  Gc.full_major ();
  Mon.arena_reset ()
(* hostile offsets and lengths *)
type target =
  | Feed of string * (bytes -> int -> int -> unit) * bool      (* name, operation, must report *)
  | Fill of string * (bytes -> int -> int -> unit)
  | Two of string * (bytes -> int -> bytes -> int -> int -> unit) * int  (* fixed length or -1 *)
let sysr = lazy (Random.system_rng ())
let devr = lazy (Random.device_rng "/dev/zero")
let target g =
  match G.int g 17 with
  | 0 | 1 | 2 -> let h = any_hm g in let o = h.hmk () in Feed (h.hname, o#add_substring, true)
  | 3 | 4 -> let t = cipher_tr g (G.bool g) in let o = t.tmk () in
    if G.bool g then o#put_string (t.tin g (G.int g 100));
    Feed (t.tname, o#put_substring, true)
  | 5 -> let t = if G.bool g then chacha_tr g else arcfour_tr g in let o = t.tmk () in
    if G.bool g then o#put_string (G.str g (G.int g 100));
    Feed (t.tname, o#put_substring, true)
  | 6 -> let a = any_aead g in let o = if G.bool g then a.aenc () else a.adec () in
    if G.bool g then o#put_string (G.str g (G.int g 40));
    Feed (a.aname, o#put_substring, true)
  | 7 -> let t = encoder_tr g in let o = t.tmk () in Feed (t.tname, o#put_substring, false)
  | 8 -> let o = if G.bool g then Zlib.compress ~level:(G.int g 10) () else Zlib.uncompress () in
    Feed ("zlib", o#put_substring, false)
  | 9 -> let o = compose ((chacha_tr g).tmk ()) ((arcfour_tr g).tmk ()) in
    Feed ("compose", o#put_substring, true)
  | 10 -> let m = any_mac g in
    let o = (if G.bool g then transform_then_hash else transform_and_hash) ((cipher_tr g false).tmk ()) (m.hmk ()) in
    Feed ("auth-compose", o#put_substring, true)
  | 11 -> (match G.int g 5 with
      | 0 -> let r = Random.pseudo_rng (G.raw g 20) in Fill ("pseudo_rng", r#random_bytes)
      | 1 -> let r = Random.pseudo_rng_aes_ctr (G.raw g 20) in Fill ("pseudo_rng_aes_ctr", r#random_bytes)
      | 2 -> let r = Lazy.force sysr in Fill ("system_rng", r#random_bytes)
      | 3 -> let r = Lazy.force devr in Fill ("device_rng", r#random_bytes)
      | _ -> (match Random.hardware_rng () with
          | r -> Fill ("hardware_rng", r#random_bytes)
          | exception Cryptokit.Error _ -> let r = Random.secure_rng in Fill ("secure_rng", r#random_bytes)))
  | 12 -> let c = any_cipher g in let o = if G.bool g then block_enc c else block_dec c in
    Two (c.cname, (fun s so d od _ -> o#transform s so d od), c.cbs)
  | 13 | 14 -> let c = any_cipher g in
    let k = G.range g 1 c.cbs in
    let o, n = match G.int g 6 with
      | 0 -> new Block.cbc_encrypt (block_enc c), "cbc_encrypt" | 1 -> new Block.cbc_decrypt (block_dec c), "cbc_decrypt"
      | 2 -> new Block.cfb_encrypt k (block_enc c), "cfb_encrypt" | 3 -> new Block.cfb_decrypt k (block_enc c), "cfb_decrypt"
      | 4 -> new Block.ofb k (block_enc c), "ofb" | _ -> new Block.ctr (block_enc c), "ctr" in
    Two (spf "Block.%s" n, (fun s so d od _ -> o#transform s so d od), o#blocksize)
  | 15 -> let o = if G.bool g then new Stream.arcfour (G.str g 16) else new Stream.chacha20 (G.str g 32) in
    Two ("Stream", o#transform, -1)
  | _ -> if G.bool g then Two ("xor_bytes", xor_bytes, -1)
    else Two ("xor_string", (fun s so d od l -> xor_string (Bytes.unsafe_to_string s) so d od l), -1)
let hostile_ofs g n len = match G.int g 12 with
  | 0 -> -1 | 1 -> - G.range g 1 64 | 2 -> min_int | 3 -> min_int + G.int g 64
  | 4 -> max_int | 5 -> max_int - G.int g 64 | 6 -> n | 7 -> n + 1 + G.int g 20
  | 8 -> n - len + 1 | 9 -> n - len + G.range g 1 40
  | 10 -> 1 lsl (G.range g 30 61) | _ -> G.int g (n + 1)
let hostile_len g n = match G.int g 14 with
  | 0 -> -1 | 1 -> - G.range g 1 64 | 2 -> min_int | 3 -> min_int + G.int g 64
  | 4 -> max_int | 5 -> max_int - G.int g 100 | 6 -> n + 1 | 7 -> n + 1 + G.int g 40
  | 8 -> (1 lsl 32) + G.int g 20 | 9 -> 1 lsl (G.range g 33 61)
  | _ -> G.int g (n + 2)
let in_range ofs len n = len >= 0 && ofs >= 0 && ofs <= n - len
let cls ofs len n =
  spf "%s/%s" (if ofs < 0 then "ofs<0" else if ofs > n then "ofs>n" else "ofs")
    (if len < 0 then "len<0" else if len > n then "len>n" else if in_range ofs len n then "ok" else "past")
(* one hostile call on target; [after] inspects the buffers *)
let hostile_call ~pure g =
  let n = G.int g 100 in
  (* under a sanitizer every byte string is in the arena: build buffers there *)
  let buf = Bytes.of_string (G.raw g n) and buf2n = G.int g 100 in
  let buf2 = Bytes.of_string (G.raw g buf2n) in
  let same = G.chance g 6 in
  let buf2 = if same then buf else buf2 in
  let buf2n = Bytes.length buf2 in
  let keep = Bytes.to_string buf and keep2 = Bytes.to_string buf2 in
  let t = target g in
  let judge name ok must (r : (unit, string) result) cl =
    match r with
    | Ok () -> if not ok && must then Mon.fail "%s: out-of-range request (%s) was not refused" name cl; false
    | Error ("Out_of_memory" | "Stack_overflow" as e) -> Mon.fail "%s: out-of-range request (%s) ended in %s" name cl e
    | Error e -> if ok && e = "Invalid_argument" then Mon.fail "%s: valid request (%s) raised %s" name cl e; true in
  let name, cl, raised, ok, written = match t with
    | Feed (name, f, rep) ->
      let len = hostile_len g n in let ofs = hostile_ofs g n len in
      let ok = in_range ofs len n in
      let cl = cls ofs len n in
      let r = Mon.catch (fun () -> f buf ofs len) in
      name, cl, judge name ok (rep && len > 0) r cl, ok, false
    | Fill (name, f) ->
      let len = hostile_len g n in let ofs = hostile_ofs g n len in
      let ok = in_range ofs len n in
      let cl = cls ofs len n in
      let r = Mon.catch (fun () -> f buf ofs len) in
      name, cl, judge name ok (len > 0) r cl, ok, true
    | Two (name, f, fixed) ->
      let len = if fixed >= 0 then fixed else hostile_len g (min n buf2n) in
      let so, od = match G.int g 3 with
        | 0 -> hostile_ofs g n len, (if buf2n >= len && len >= 0 then G.int g (buf2n - len + 1) else 0)
        | 1 -> (if n >= len && len >= 0 then G.int g (n - len + 1) else 0), hostile_ofs g buf2n len
        | _ -> hostile_ofs g n len, hostile_ofs g buf2n len in
      let ok = in_range so len n && in_range od len buf2n in
      let cl = cls so len n ^ "," ^ cls od len buf2n in
      let r = Mon.catch (fun () -> f buf so buf2 od len) in
      name, cl, judge name ok (len > 0) r cl, ok, true in
  let unchanged = Bytes.to_string buf = keep && Bytes.to_string buf2 = keep2 in
  let nm = List.hd (String.split_on_char '/' name) in
  if pure && raised && not ok && not unchanged then Mon.fail "%s: refused (%s) but wrote into the caller's buffer" name cl;
  if pure && not written && not unchanged then Mon.fail "%s: modified its source buffer" name;
  nm, cl
let c12_hostile mode i g =
  Mon.arena_set mode;
  let seen = ref [] in
  for _ = 1 to 8 do
    seen := hostile_call ~pure:false g :: !seen
  done;
  Mon.arena_set 0;
  let bad = Mon.arena_check () in
  List.iter (fun (n, c) -> Mon.seen (spf "hostile %s %s" (Bytes.to_string (Bytes.of_string n)) c)) !seen;
  if bad > 0 then Mon.fail "memory next to a buffer was overwritten (%s)" (String.concat "; " (List.map (fun (n, c) -> n ^ " " ^ c) !seen));
  seen := [];
  Gc.full_major ();
  Mon.arena_reset ()

(* ---------- C13 ---------- *)
let c13_hostile i g = for _ = 1 to 8 do let n, c = hostile_call ~pure:true g in Mon.seen (spf "invalid %s %s" n c) done
(* remember copies of inputs, compare afterwards *)
let watch l f =
  let copies = List.map (fun (n, s) -> n, s, String.concat "" [s; ""] |> fun c -> Bytes.to_string (Bytes.of_string c)) l in
  f ();
  List.iter (fun (n, s, c) -> if not (String.equal s c) then Mon.fail "%s was modified: now %s, was %s" n (Mon.hex s) (Mon.hex c)) copies
let c13_inputs i g =
  match G.int g 12 with
  | 0 | 1 ->
    let h = any_hm g in
    let msg = G.str g (G.len g 300) in
    let buf = Bytes.of_string (G.str g (G.len g 200)) in
    watch (("message", msg) :: ("buffer", Bytes.unsafe_to_string buf) :: List.map (fun k -> (h.hname ^ " key", k)) h.hsecrets) (fun () ->
        let o = h.hmk () in
        o#add_string msg; o#add_substring buf 0 (Bytes.length buf); o#add_string msg;
        ignore o#result; o#wipe;
        ignore (hash_string (h.hmk ()) msg));
    Mon.seen ("inputs " ^ h.hname)
  | 2 | 3 | 4 ->
    let t = any_tr g in
    let msg = t.tin g (G.len g 400) in
    let buf = Bytes.of_string msg in
    watch (("message", msg) :: ("buffer", Bytes.unsafe_to_string buf) :: List.map (fun k -> (t.tname ^ " key/iv", k)) t.tsecrets) (fun () ->
        let o = t.tmk () in
        o#put_string msg; o#finish; ignore o#get_string; o#wipe;
        let o = t.tmk () in
        o#put_substring buf 0 (Bytes.length buf); o#finish; ignore o#get_substring; o#wipe;
        ignore (transform_string (t.tmk ()) msg));
    Mon.seen ("inputs " ^ t.tname)
  | 5 | 6 ->
    let a = any_aead g in
    let msg = G.str g (G.len g 300) in
    let sealed = a.aref msg in
    watch [ a.aname ^ " key", a.akey; "iv", a.aiv; "header", a.ahdr; "message", msg; "sealed", sealed ] (fun () ->
        ignore (auth_transform_string (a.aenc ()) msg);
        ignore (auth_transform_string_detached (a.aenc ()) msg);
        ignore (auth_check_transform_string (a.adec ()) sealed);
        ignore (auth_check_transform_string (a.adec ()) (sealed ^ "x")));
    Mon.seen ("inputs " ^ a.aname)
  | 7 ->
    (* destination ranges *)
    let c = any_cipher g in
    let o = match G.int g 7 with
      | 0 -> block_enc c | 1 -> block_dec c | 2 -> new Block.cbc_encrypt (block_enc c) | 3 -> new Block.cbc_decrypt (block_dec c)
      | 4 -> new Block.cfb_encrypt (G.range g 1 c.cbs) (block_enc c) | 5 -> new Block.cfb_decrypt (G.range g 1 c.cbs) (block_enc c)
      | _ -> if G.bool g then new Block.ofb (G.range g 1 c.cbs) (block_enc c) else new Block.ctr (block_enc c) in
    let bs = o#blocksize in
    let so = G.int g 20 and od = G.int g 20 in
    let src = G.raw g (so + bs + G.int g 20) in
    let sb = Bytes.of_string src in
    let dst = Bytes.of_string (G.raw g (od + bs + G.int g 40)) in
    let before = Bytes.to_string dst in
    for _ = 1 to 3 do o#transform sb so dst od done;
    if Bytes.to_string sb <> src then Mon.fail "%s: source buffer modified" c.cname;
    let after = Bytes.to_string dst in
    Mon.check (spf "dest %s bs%d" c.cname bs)
      (String.sub before 0 od = String.sub after 0 od
       && String.sub before (od + bs) (String.length before - od - bs) = String.sub after (od + bs) (String.length before - od - bs));
    o#wipe;
    if Bytes.to_string dst <> after then Mon.fail "%s: wiping changed the caller's buffer" c.cname
  | 8 ->
    let n = G.len g 300 in
    let so = G.int g 20 and od = G.int g 20 in
    let src = G.raw g (so + n + G.int g 20) in
    let sb = Bytes.of_string src in
    let dst = Bytes.of_string (G.raw g (od + n + G.int g 40)) in
    let before = Bytes.to_string dst in
    let name = match G.int g 4 with
      | 0 -> xor_bytes sb so dst od n; "xor_bytes"
      | 1 -> xor_string src so dst od n; "xor_string"
      | 2 -> (new Stream.arcfour (G.str g 5))#transform sb so dst od n; "arcfour"
      | _ -> (new Stream.chacha20 (G.str g 32))#transform sb so dst od n; "chacha20" in
    if Bytes.to_string sb <> src then Mon.fail "%s: source buffer modified" name;
    let after = Bytes.to_string dst in
    Mon.check (spf "dest %s %d@%d" name (min n 70) (od land 7))
      (String.sub before 0 od = String.sub after 0 od
       && String.sub before (od + n) (String.length before - od - n) = String.sub after (od + n) (String.length before - od - n))
  | 9 ->
    let n = G.len g 300 and od = G.int g 20 in
    let dst = Bytes.of_string (G.raw g (od + n + G.int g 40)) in
    let before = Bytes.to_string dst in
    let name, r = match G.int g 6 with
      | 0 -> "pseudo_rng", Random.pseudo_rng (G.raw g 32)
      | 1 -> "pseudo_rng_aes_ctr", Random.pseudo_rng_aes_ctr (G.raw g 32)
      | 2 -> "device_rng", Lazy.force devr | 3 -> "secure_rng", Random.secure_rng
      | 4 -> "hardware_rng", (try Random.hardware_rng () with Cryptokit.Error _ -> Random.secure_rng)
      | _ -> "system_rng", Lazy.force sysr in
    for _ = 1 to 2 do r#random_bytes dst od n done;
    let after = Bytes.to_string dst in
    Mon.check (spf "dest %s %d@%d" name (min n 70) (od land 7))
      (String.sub before 0 od = String.sub after 0 od
       && String.sub before (od + n) (String.length before - od - n) = String.sub after (od + n) (String.length before - od - n))
  | 10 ->
    let a = G.raw g (G.range g 1 40) and b = "\001" ^ G.raw g (G.range g 0 20) in
    let c = "\001" ^ G.raw g (8 * G.range g 1 4 - 2) ^ "\001" in
    watch [ "a", a; "b", b; "modulus", c ] (fun () -> ignore (mod_power a b c); ignore (mod_mult a b c));
    Mon.seen "inputs mod_power"
  | _ ->
    let rng = Random.pseudo_rng (G.raw g 32) in
    let bits = 64 * G.range g 1 3 in
    let priv, pub = RSA.new_key ~rng ~e:3 bits in
    let m = "\000" ^ G.raw g (bits / 8 - 1) in
    let sec = DH.{ p = pub.RSA.n; g = "\002"; privlen = 100 } in
    watch [ "n", pub.RSA.n; "e", pub.RSA.e; "pn", priv.RSA.n; "d", priv.RSA.d; "p", priv.RSA.p; "q", priv.RSA.q; "dp", priv.RSA.dp;
            "dq", priv.RSA.dq; "qinv", priv.RSA.qinv; "m", m ] (fun () ->
        let c = RSA.encrypt pub m in
        watch [ "c", c ] (fun () ->
            ignore (RSA.decrypt priv c); ignore (RSA.decrypt_CRT priv c); ignore (RSA.sign priv m); ignore (RSA.sign_CRT priv m);
            ignore (RSA.unwrap_signature pub c);
            let a = DH.private_secret ~rng sec in
            let msg = DH.message sec a in
            watch [ "dh message", msg ] (fun () -> ignore (DH.shared_secret sec a msg);
                                          ignore (DH.derive_key ~diversification:m c 100))));
    Mon.seen "inputs rsa"
(* constants of the library itself must survive wiping of whatever was built from them *)
let c13_constants i g =
  let probe () =
    let z16 = String.make 16 'k' in
    String.concat "|" [
      transform_string (Cipher.aes z16 Cipher.Encrypt) (String.make 32 'a');
      transform_string (Cipher.chacha20 z16 Cipher.Encrypt) "";
      transform_string (Base64.encode_multiline ()) "hello world"; transform_string (Hexa.encode ()) "\001\171";
      auth_transform_string (AEAD.aes_gcm ~iv:(String.make 12 'i') z16 AEAD.Encrypt) "m";
      auth_transform_string (AEAD.chacha20_poly1305 ~iv:(String.make 12 'i') z16 AEAD.Encrypt) "m";
      hash_string (MAC.hmac_sha1 "") ""; hash_string (MAC.aes_cmac z16) ""; hash_string (Hash.blake2b512 ()) "" ;
      hash_string (Hash.sha256 ()) ""; hash_string (Hash.ripemd160 ()) ""; transform_string (Cipher.blowfish z16 Cipher.Encrypt) (String.make 8 'b') ] in
  let a = probe () in
  for _ = 1 to 6 do ignore (transcript g) done;
  Mon.check_eq "constants" ~got:(probe ()) ~want:a

(* ---------- C14 ---------- *)
let c14_cmp name what base (n2, tr2) =
  Mon.seen (spf "%s %s" name what);
  if not (String.equal base tr2) then
    Mon.fail "%s: result under %s differs: %s instead of %s (first difference at %d)" name what (Mon.hex tr2) (Mon.hex base) (Mon.first_diff tr2 base)
let run_tr i s0 = let g = { G.s = s0 } in
  let n, tr, _, got, _ = transcript ~i g in n, tr ^ "/" ^ got
let c14_stub i g =
  (* a collection at every allocation made by the native stubs, then at each one alone *)
  Lazy.force small_minor;
  let s0 = g.G.s in
  let n, base = run_tr i s0 in
  for mode = 1 to 3 do
    if mode = 1 || G.chance g 3 then begin
      Mon.gc_stub_only true; Mon.gc_set mode (-1);
      let r = run_tr i s0 in
      let pts = Mon.gc_points () in
      Mon.gc_set 0 (-1); Mon.gc_stub_only false;
      Mon.event "stub_injection_points" pts;
      c14_cmp n (spf "collection mode %d at every native allocation" mode) base r;
      if mode = 1 then
        for k = 0 to min pts 12 - 1 do
          Mon.gc_stub_only true; Mon.gc_set (if G.chance g 8 then 3 else 1) k;
          let r = run_tr i s0 in
          Mon.gc_set 0 (-1); Mon.gc_stub_only false;
          c14_cmp n (spf "one collection at native allocation %d" k) base r
        done
    end
  done
let c14_all i g =
  (* collections at arbitrary allocation points of the whole program *)
  Lazy.force small_minor;
  let s0 = g.G.s in
  let n, base = run_tr i s0 in
  Mon.gc_set 1 (-1);
  let r = run_tr i s0 in
  let pts = Mon.gc_points () in
  Mon.gc_set 0 (-1);
  c14_cmp n "minor collection at every allocation" base r;
  for _ = 1 to 6 do
    let k = G.int g (max 1 pts) in
    let mode = G.range g 1 3 in
    Mon.gc_set mode k;
    let r = run_tr i s0 in
    Mon.gc_set 0 (-1);
    c14_cmp n (spf "one collection (mode %d) at a random allocation" mode) base r
  done
(* one use of an object on a large buffer, fed in one piece or a few *)
let large_use i g =
  let size = match G.int g 6 with 0 -> G.range g 2000 9000 | 1 | 2 -> G.range g 16_000 80_000 | 3 | 4 -> G.range g 66_000 200_000 | _ -> 1_050_000 + G.int g 50_000 in
  let size = if i mod 8 >= 2 && i mod 8 <= 4 then min size 150_000 else size in
  let cut s put = (* one to three pieces, possibly from the middle of a buffer *)
    let n = String.length s in
    if G.bool g then put (Bytes.of_string s) 0 n
    else begin
      let b = Bytes.of_string ("xyz" ^ s ^ "end") in
      let k = G.int g (min n 3000 + 1) in
      put b 3 k; put b (3 + k) (n - k)
    end in
  match i mod 8 with
  | 0 | 1 -> let h = if i land 8 = 0 then hash_i g (i / 16 mod n_hash) else mac_i g (i / 16 mod n_mac) in
    let size = if i land 8 = 0 then size else min size 300_000 in
    let msg = G.raw g size in
    let o = h.hmk () in
    cut msg o#add_substring;
    h.hname, o#result, (fun () -> h.href msg)
  | 2 | 3 -> let t = cipher_tr g (i mod 8 = 3) in let msg = t.tin g size in
    let o = t.tmk () in cut msg o#put_substring; o#finish;
    t.tname, o#get_string, (fun () -> t.tref msg)
  | 4 -> let a = any_aead g in let msg = G.raw g size in let o = a.aenc () in
    cut msg o#put_substring;
    let tag = o#finish_and_get_tag in
    a.aname, o#get_string ^ tag, (fun () -> a.aref msg)
  | 5 -> let t = if G.bool g then arcfour_tr g else chacha_tr g in let msg = G.raw g size in
    let o = t.tmk () in cut msg o#put_substring; o#finish;
    t.tname, o#get_string, (fun () -> t.tref msg)
  | 6 -> let t, hdr = compress_tr g in let msg = any_data g size in
    let o = t.tmk () in cut msg o#put_substring; if G.bool g then o#flush; o#finish;
    let c = o#get_string in
    t.tname, (match Rf.inflate hdr c with 0, o -> o | st, _ -> spf "inflate status %d" st), (fun () -> msg)
  | _ -> (match G.int g 3 with
      | 0 -> let t = uncompress_tr g in let msg = t.tin g size in
        let o = t.tmk () in cut msg o#put_substring; o#finish;
        t.tname, o#get_string, (fun () -> t.tref msg)
      | 1 -> let a = G.raw g size and b = G.raw g size in
        let d = Bytes.of_string b in xor_string a 0 d 0 size;
        "xor", Bytes.to_string d, (fun () -> Rf.xor a b)
      | _ -> let seed = G.raw g 32 in let r = Random.pseudo_rng seed in
        "pseudo_rng", Random.string r size, (fun () -> Rf.chacha20 seed (String.make 8 '\000') 0L size))
let c14_large i g =
  Lazy.force small_minor;
  let j = Sys.opaque_identity (Bytes.create (100_000 + G.int g 1_000_000)) in
  ignore j;
  Mon.gc_stub_only true; Mon.gc_set (if G.chance g 3 then 3 else 1) (-1);
  let fin () = Mon.gc_set 0 (-1); Mon.gc_stub_only false in
  let n, got, want = try large_use i g with e -> fin (); raise e in
  fin ();
  Mon.check_eq ("large " ^ n) ~got ~want:(want ())
(* entropy requests: the bytes must land in the buffer given, wherever the collector puts it meanwhile *)
let c14_entropy i g =
  Lazy.force small_minor;
  let r = if i land 1 = 0 then Random.system_rng () else Random.secure_rng in
  Mon.ent_set 1 (-1);
  Mon.gc_stub_only true; Mon.gc_set (if G.chance g 4 then 3 else 1) (-1);
  let fin () = Mon.gc_set 0 (-1); Mon.gc_stub_only false; Mon.ent_set 0 (-1) in
  (try
     for _ = 1 to 6 do
       let n = match G.int g 5 with 0 -> G.int g 300 | 1 -> G.range g 900 2000 | 2 -> G.range g 1000 40000 | 3 -> 65536 + G.int g 5000 | _ -> G.int g 2000 in
       let o = G.int g 10 in
       let p0 = Mon.ent_pos () in
       let b = Bytes.make (o + n + 3) 'u' in
       r#random_bytes b o n;
       let p1 = Mon.ent_pos () in
       let got = Bytes.sub_string b o n in
       if p1 > p0 || n = 0 then Work.check_source (spf "entropy request of %d bytes" (n land 255)) ~slack:256 Mon.ent_byte p0 p1 got
       else Mon.event "requests_to_unobserved_source" 1
     done
   with e -> fin (); raise e);
  fin ()
let c14_reach i g =
  (* contexts stay valid while the object is reachable: collect between any two uses *)
  Lazy.force small_minor;
  let h = any_hm g in
  let msg = G.str g (G.len g 400) in
  let o = h.hmk () in
  let pos = ref 0 in
  List.iter (fun k ->
      o#add_string (String.sub msg !pos k); pos := !pos + k;
      match G.int g 3 with 0 -> Gc.full_major () | 1 -> Gc.minor () | _ -> if G.chance g 5 then Gc.compact ()) (G.split g (String.length msg));
  Gc.minor ();
  Mon.check_eq ("reach " ^ h.hname) ~got:o#result ~want:(h.href msg);
  let a = any_aead g in
  let t = a.aenc () in
  let m = G.str g (G.len g 100) in
  Gc.full_major ();
  t#put_string m; if G.bool g then Gc.compact () else Gc.minor ();
  let tag = t#finish_and_get_tag in
  Mon.check_eq ("reach " ^ a.aname) ~got:(t#get_string ^ tag) ~want:(a.aref m);
  (* a stream abandoned and collected while others run *)
  let c = Zlib.compress () in c#put_string m;
  ignore (Sys.opaque_identity c);
  let s, hdr = compress_tr g in
  let data = any_data g 500 in
  let c2 = s.tmk () in
  c2#put_string data; Gc.full_major (); c2#finish;
  Gc.compact ();
  Mon.check_eq "reach zlib" ~got:(transform_string (Zlib.uncompress ~expect_zlib_header:hdr ()) c2#get_string) ~want:data

(* ---------- C16 ---------- *)
(* an object in progress: a list of steps and a final check *)
type job = { jn : string; step : unit -> bool (* true: more *); fin : unit -> unit }
let job g : job =
  let feeder n f = (* pieces of a message *)
    let pieces = ref (G.split g n) and pos = ref 0 in
    fun () -> match !pieces with
      | [] -> false
      | k :: r -> f !pos k; pos := !pos + k; pieces := r; true in
  match G.int g 8 with
  | 0 | 1 -> let h = any_hm g in let msg = G.str g (G.len g 400) in let o = h.hmk () in
    { jn = h.hname; step = feeder (String.length msg) (fun p k -> ignore (
          if G.bool g then o#add_string (String.sub msg p k) else o#add_substring (Bytes.of_string msg) p k));
      fin = (fun () -> Mon.check_eq ("indep " ^ h.hname) ~got:o#result ~want:(h.href msg); if G.bool g then o#wipe) }
  | 2 | 3 | 4 -> let t = any_tr g in let msg = t.tin g (G.len g 500) in let o = t.tmk () in
    let out = Buffer.create 100 in
    { jn = t.tname; step = feeder (String.length msg) (fun p k -> ignore (put_piece g o (String.sub msg p k)); Work.drain g o out);
      fin = (fun () -> o#finish; Buffer.add_string out o#get_string;
              Mon.check_eq ("indep " ^ t.tname) ~got:(Buffer.contents out) ~want:(t.tref msg); if G.bool g then o#wipe) }
  | 5 -> let a = any_aead g in let msg = G.str g (G.len g 300) in let o = a.aenc () in
    let out = Buffer.create 100 in
    { jn = a.aname; step = feeder (String.length msg) (fun p k -> ignore (put_piece g o (String.sub msg p k)); Work.drain g o out);
      fin = (fun () -> let tag = o#finish_and_get_tag in Buffer.add_string out o#get_string;
              Mon.check_eq ("indep " ^ a.aname) ~got:(Buffer.contents out ^ tag) ~want:(a.aref msg); o#wipe) }
  | 6 -> let c, hdr = compress_tr g in let msg = any_data g (G.len g 1500) in let o = c.tmk () in
    let out = Buffer.create 100 in
    { jn = c.tname; step = feeder (String.length msg) (fun p k -> ignore (put_piece g o (String.sub msg p k)); Work.drain g o out);
      fin = (fun () -> o#finish; Buffer.add_string out o#get_string;
              let st, back = Rf.inflate hdr (Buffer.contents out) in
              Mon.check_eq ("indep " ^ c.tname) ~got:(spf "%d%s" st back) ~want:("0" ^ msg)) }
  | _ -> let seed = G.raw g 16 in
    let r = if G.bool g then Random.pseudo_rng (String.sub seed 0 16), (fun n -> Rf.chacha20 seed (String.make 8 '\000') 0L n)
      else Random.pseudo_rng_aes_ctr (String.sub seed 0 16), (fun n ->
          let bl = Buffer.create 100 and c = ref (String.make 16 '\000') in
          while Buffer.length bl < n do Buffer.add_string bl (Rf.ecb 0 false seed !c); c := Rf.incr_last !c 16 done;
          Buffer.sub bl 0 n) in
    let out = Buffer.create 100 in
    { jn = "prng"; step = feeder (G.int g 300) (fun _ k -> Buffer.add_string out (Random.string (fst r) k));
      fin = (fun () -> Mon.check_eq "indep prng" ~got:(Buffer.contents out) ~want:((snd r) (Buffer.length out))) }
let c16_interleave i g =
  let n = G.range g 2 8 in
  let jobs = Array.init n (fun _ -> job g) in
  let alive = ref (Array.to_list jobs) in
  while !alive <> [] do
    let j = G.pickl g !alive in
    if not (j.step ()) then begin j.fin (); alive := List.filter (fun x -> x != j) !alive end;
    (* unrelated objects come and go *)
    if G.chance g 10 then ignore (transcript g);
    if G.chance g 60 then Gc.full_major ()
  done;
  Mon.event "objects_interleaved" n
(* a user-written block cipher that uses the library in the middle of every block *)
let c16_reentrant i g =
  let c = any_cipher g in
  let mode = any_mode g c.cbs in
  let mode = if mode = Rf.CTR_N 1 then Rf.CTR else mode in
  let inner = ref 0 in
  let budget = ref 12 in
  let wrap (b : Block.block_cipher) : Block.block_cipher = object
    method blocksize = b#blocksize
    method transform s so d od =
      if !budget > 0 then begin decr budget; incr inner;
        let n, _, what, got, want = transcript g in
        Mon.check_eq ("inner " ^ n ^ " " ^ what) ~got ~want end;
      b#transform s so d od
    method wipe = b#wipe end in
  let iv = any_iv g c.cbs in
  let dec = G.bool g in
  let fwd = match mode with Rf.CBC | ECB -> not dec | _ -> true in
  let base = wrap (if fwd then block_enc c else block_dec c) in
  let ch : Block.block_cipher = match mode with
    | Rf.ECB -> base
    | CBC -> if dec then new Block.cbc_decrypt ~iv base else new Block.cbc_encrypt ~iv base
    | CFB n -> if dec then new Block.cfb_decrypt ~iv n base else new Block.cfb_encrypt ~iv n base
    | OFB n -> new Block.ofb ~iv n base
    | CTR -> new Block.ctr ~iv base
    | CTR_N n -> new Block.ctr ~iv ~inc:n base in
  let u = Rf.unit_of c.cbs mode in
  let msg = G.str g (G.len g 200 / u * u) in
  let want = Rf.mode_apply ~e:(e c) ~d:(d c) ~bs:c.cbs mode ~decrypt:dec ~iv msg in
  let o = new Block.cipher ch in
  let out = Buffer.create 100 in
  let pos = ref 0 in
  List.iter (fun k -> ignore (put_piece g o (String.sub msg !pos k)); pos := !pos + k; Work.drain g o out) (G.split g (String.length msg));
  o#finish; Buffer.add_string out o#get_string;
  Mon.event "reentrant_inner_operations" !inner;
  Mon.check_eq (spf "reentrant %s %s" c.cname (Rf.mode_name mode)) ~got:(Buffer.contents out) ~want;
  (* and as a MAC *)
  let budget0 = !budget in ignore budget0; budget := 6;
  let m = new Block.mac ~pad:Padding._8000 (wrap (block_enc c)) in
  let msg = G.str g (G.len g 60) in
  ignore (feed_hash g m msg);
  Mon.check_eq ("reentrant mac " ^ c.cname) ~got:m#result
    ~want:(Rf.cbc_mac ~e:(e c) ~bs:c.cbs ~iv:(String.make c.cbs '\000') (Rf.pad_8000 c.cbs msg))
let c16_signals i g =
  (* a timer interrupts library code at arbitrary polling points and runs more library code *)
  let g2 = G.make [ i; 99 ] in
  let n = ref 0 and busy = ref false and err = ref None in
  let old = Sys.signal Sys.sigalrm (Sys.Signal_handle (fun _ ->
      if not !busy then begin
        busy := true; incr n;
        (try let nm, _, what, got, want = transcript g2 in
           if nm <> "rsa" && nm <> "dh" && not (String.equal got want) then
             err := Some (spf "%s %s run from a signal handler gives %s instead of %s" nm what (Mon.hex got) (Mon.hex want))
         with Mon.Violation m -> err := Some m);
        busy := false end)) in
  ignore (Unix.setitimer Unix.ITIMER_REAL { Unix.it_interval = 0.00031; it_value = 0.0002 });
  let finish () =
    ignore (Unix.setitimer Unix.ITIMER_REAL { Unix.it_interval = 0.; it_value = 0. });
    Sys.set_signal Sys.sigalrm old in
  (try
     for _ = 1 to 25 do
       let nm, _, what, got, want = transcript g in
       Mon.check_eq ("signals " ^ nm ^ " " ^ what) ~got ~want
     done; finish ()
   with e -> finish (); raise e);
  Mon.event "signal_handler_runs" !n;
  match !err with Some m -> Mon.fail "%s" m | None -> ()
let c16_threads i g =
  let errs = ref [] and m = Mutex.create () and done_ = ref 0 in
  let gs = Array.init 4 (fun k -> G.make [ i; k; 1616; G.next g ]) in
  let ths = Array.map (fun g -> Thread.create (fun () ->
      try for _ = 1 to 12 do
          let j = job g in
          let fin = ref false in
          while not !fin do
            if G.bool g then Thread.yield ();
            fin := not (j.step ()) done;
          Thread.yield ();
          Mutex.lock m;
          (try j.fin () with e -> Mutex.unlock m; raise e);
          incr done_;
          Mutex.unlock m
        done
      with Mon.Violation s -> errs := s :: !errs
         | e -> errs := ("unexpected exception " ^ Printexc.to_string e) :: !errs) ()) gs in
  Array.iter Thread.join ths;
  Mon.event "threaded_objects" !done_;
  match !errs with [] -> () | s :: _ -> Mon.fail "with concurrent threads: %s" s
(* large buffers, while other threads allocate, collect and use objects of their own *)
let c16_threads_large i g =
  let stop = ref false and errs = ref [] and m = Mutex.create () and done_ = ref 0 in
  let guard f () = try f () with Mon.Violation s -> errs := s :: !errs
                              | e -> errs := ("unexpected exception " ^ Printexc.to_string e) :: !errs in
  let noise = Thread.create (guard (fun () ->
      let k = ref 0 in
      while not !stop do
        incr k; ignore (Sys.opaque_identity (Bytes.create (1000 + !k mod 200000)));
        if !k mod 16 = 0 then Gc.compact () else Gc.minor ();
        Thread.yield () done)) () in
  let ths = List.init 2 (fun k -> let g = G.make [ i; k; 16163; G.next g ] in
    Thread.create (guard (fun () ->
        for r = 0 to 3 do
          let n, got, want = large_use (i + 3 * r + 5 * k) g in
          Thread.yield ();
          Mutex.lock m;
          (try Mon.check_eq ("large, threads: " ^ n) ~got ~want:(want ()) with e -> Mutex.unlock m; raise e);
          incr done_; Mutex.unlock m
        done)) ()) in
  List.iter Thread.join ths; stop := true; Thread.join noise;
  Mon.event "threaded_large_uses" !done_;
  match !errs with [] -> () | s :: _ -> Mon.fail "with concurrent threads: %s" s
let c16_uninit i g =
  (* the same use with different contents of fresh memory, different heap history *)
  let s0 = g.G.s in
  let n, base = run_tr i s0 in
  List.iter (fun f ->
      Mon.fill_set f;
      if f > 0 then Mon.dirty_malloc f;
      let _, r = run_tr i s0 in
      Mon.fill_set (-1);
      Mon.seen (spf "uninit %s" n);
      if not (String.equal r base) then
        Mon.fail "%s: result depends on the contents of fresh memory: %s then %s (first difference at %d)" n (Mon.hex base) (Mon.hex r) (Mon.first_diff r base))
    [ 0; 0xA5; G.int g 256 ];
  (* and with unrelated operations before *)
  ignore (transcript g); ignore (transcript g);
  let _, r = run_tr i s0 in
  if not (String.equal r base) then Mon.fail "%s: result depends on earlier operations" n
let c16_ref i g =
  (* under garbage-filled fresh memory results still equal the reference *)
  Mon.fill_set (1 + G.int g 255);
  let n, _, what, got, want = transcript ~i g in
  Mon.fill_set (-1);
  Mon.check_eq ("garbage-filled " ^ n ^ " " ^ what) ~got ~want

(* objects made one after the other from different keys that lie at the same address *)
let recycled : (string * int list * (string -> string -> string)) array = [|
  "aes-enc", [16; 24; 32], (fun k m -> transform_string (Cipher.aes ~mode:Cipher.ECB k ~pad:Padding.length Cipher.Encrypt) m);
  "aes-dec", [16; 24; 32], (fun k m -> transform_string (Cipher.aes ~mode:Cipher.ECB k Cipher.Decrypt) (hash_string (Hash.sha256 ()) m));
  "aes-ctr", [16; 24; 32], (fun k m -> transform_string (Cipher.aes ~mode:Cipher.CTR k Cipher.Encrypt) (hash_string (Hash.sha256 ()) m));
  "des", [8], (fun k m -> transform_string (Cipher.des ~mode:Cipher.ECB k ~pad:Padding.length Cipher.Encrypt) m);
  "des-dec", [8], (fun k m -> transform_string (Cipher.des ~mode:Cipher.ECB k Cipher.Decrypt) (hash_string (Hash.sha256 ()) m));
  "3des", [16; 24], (fun k m -> transform_string (Cipher.triple_des k ~pad:Padding.length Cipher.Encrypt) m);
  "blowfish", [4; 16; 56], (fun k m -> transform_string (Cipher.blowfish k ~pad:Padding.length Cipher.Encrypt) m);
  "arcfour", [1; 5; 16; 256], (fun k m -> transform_string (Cipher.arcfour k Cipher.Encrypt) m);
  "chacha20", [16; 32], (fun k m -> transform_string (Cipher.chacha20 k Cipher.Encrypt) m);
  "chacha20-iv", [8; 12], (fun k m -> transform_string (Cipher.chacha20 ~iv:k (String.make 32 'k') Cipher.Encrypt) m);
  "cbc-iv", [16], (fun k m -> transform_string (Cipher.aes ~iv:k (String.make 32 'k') ~pad:Padding.length Cipher.Encrypt) m);
  "hmac-sha256", [5; 64; 65], (fun k m -> hash_string (MAC.hmac_sha256 k) m);
  "hmac-sha512", [5; 128; 130], (fun k m -> hash_string (MAC.hmac_sha512 k) m);
  "hmac-md5", [5; 64; 65], (fun k m -> hash_string (MAC.hmac_md5 k) m);
  "blake2b-mac", [1; 64], (fun k m -> hash_string (MAC.blake2b 512 k) m);
  "blake2s-mac", [1; 32], (fun k m -> hash_string (MAC.blake2s 256 k) m);
  "blake3-mac", [32], (fun k m -> hash_string (MAC.blake3 256 k) m);
  "siphash", [16], (fun k m -> hash_string (MAC.siphash k) m);
  "siphash128", [16], (fun k m -> hash_string (MAC.siphash128 k) m);
  "cmac", [16; 24; 32], (fun k m -> hash_string (MAC.aes_cmac k) m);
  "gcm", [16; 24; 32], (fun k m -> auth_transform_string (AEAD.aes_gcm ~iv:(String.make 12 'n') k AEAD.Encrypt) m);
  "gcm-iv", [1; 12; 16; 40], (fun k m -> auth_transform_string (AEAD.aes_gcm ~iv:k (String.make 16 'k') AEAD.Encrypt) m);
  "chapoly", [32], (fun k m -> auth_transform_string (AEAD.chacha20_poly1305 ~iv:(String.make 12 'n') k AEAD.Encrypt) m);
  "prng", [16; 32], (fun k m -> Random.string (Random.pseudo_rng k) (String.length m));
  "prng-aes", [16; 32], (fun k m -> Random.string (Random.pseudo_rng_aes_ctr k) (String.length m));
  "sha1", [20], (fun k m -> hash_string (Hash.sha1 ()) k);
  "sha3", [20; 200], (fun k m -> hash_string (Hash.sha3 256) k);
  "blake3", [20; 200], (fun k m -> hash_string (Hash.blake3 256) k);
  "zlib", [20; 200], (fun k m -> transform_string (Zlib.compress ()) k) |]
let c16_recycled i g =
  let name, lens, f = recycled.(i mod Array.length recycled) in
  let l = G.pickl g lens in
  let msg = G.str g (G.range g 1 100) in
  let keys = Array.init 4 (fun _ -> G.raw g l) in
  (* a key that differs from another one in its last byte only *)
  keys.(3) <- String.sub keys.(2) 0 (l - 1) ^ String.make 1 (Char.chr (Char.code keys.(2).[l - 1] lxor (1 + G.int g 255)));
  if G.bool g then Gc.minor ();
  let want = Array.map (fun k -> f k msg) keys in
  for _ = 1 to 12 do
    let j = G.int g 4 in
    Gc.minor ();
    let k = Bytes.unsafe_to_string (Bytes.of_string keys.(j)) in
    let got = f k msg in
    Mon.check_eq (spf "%s with a key at the address of an earlier one" name) ~got ~want:want.(j)
  done;
  (* the caller reuses one buffer for several keys *)
  let b = Bytes.create l in
  for _ = 1 to 6 do
    let j = G.int g 4 in
    Bytes.blit_string keys.(j) 0 b 0 l;
    let got = f (Bytes.unsafe_to_string b) msg in
    Mon.check_eq (spf "%s with a key in the buffer of an earlier one" name) ~got ~want:want.(j)
  done

let props = [
  "C12", [ fam "workload-redzones" 640 20000 (c12_workload 1); fam "workload-guard-pages" 320 8000 (c12_workload 2);
           fam "hostile-ranges" 4000 100000 (c12_hostile 1); fam "hostile-guard-pages" 1500 40000 (c12_hostile 2) ];
  "C13", [ fam "invalid-arguments" 30000 100000 c13_hostile; fam "inputs-and-destinations" 60000 200000 c13_inputs;
           fam "constants" 1500 4000 c13_constants ];
  "C14", [ fam "native-points" 900 20000 c14_stub; fam "all-points" 300 8000 c14_all; fam "reachability" 300 6000 c14_reach; fam "large" 480 8000 c14_large; fam "entropy" 240 4000 c14_entropy ];
  "C16", [ fam "interleaving" 1500 40000 c16_interleave; fam "reentrancy" 1500 40000 c16_reentrant; fam "signal-handlers" 120 2000 c16_signals;
           fam "threads" 100 2000 c16_threads; fam "threads-large" 32 600 c16_threads_large; fam "uninitialised-memory" 1500 40000 c16_uninit; fam "garbage-filled" 2000 50000 c16_ref;
           fam "recycled-keys" 2000 40000 c16_recycled ];
]
