(* C15: erasure.  Two runs of the same history that differ only in the
   secrets (keys, IVs, data) must leave, after wiping, identical object
   graphs (byte strings, integers and native contexts included), and must
   have released identical native memory. *)
open Cryptokit
open Zoo
module G = Gen0
type ('a,'b) result = ('a,'b) Stdlib.result = Ok of 'a | Error of 'b
let spf = Printf.sprintf
let copy (g : G.t) : G.t = { G.s = g.G.s }

type sub = { root : Obj.t; excl : string list; wipe : unit -> unit }

(* [mk shape secret]: builds and uses an object; decisions from [shape],
   contents from [secret]. *)
(* What a run shows besides contents: errors and amounts of output.  Where these differ between the two runs
   (a random padding that happens to be valid, say) the histories differ, and nothing can be concluded. *)
let shown = Buffer.create 100
let show s = Buffer.add_string shown s; Buffer.add_char shown ';'
let twin name g (mk : G.t -> G.t -> sub) =
  let s1 = G.make [ G.next g ] and s2 = G.make [ G.next g ] in
  let wipes = if G.chance g 5 then 2 else 1 in
  let one shape secret =
    Buffer.clear shown;
    Gc.full_major ();
    Mon.track_free true;
    Mon.fill_set 0x5a;
    let before, after =
      let s = mk shape secret in
      Mon.fill_set (-1);
      let ex = Array.of_list (List.map Obj.repr s.excl) in
      let before = Mon.snapshot s.root ex true in
      for _ = 1 to wipes do s.wipe () done;
      let after = Mon.snapshot s.root ex true in
      before, after in
    Gc.full_major (); Gc.full_major ();
    let d = Mon.free_digest () and n = Mon.free_bytes () in
    Mon.track_free false;
    Mon.event "native_bytes_released_observed" n;
    before, after, (d, Buffer.contents shown) in
  let g1 = copy g and g2 = copy g in
  let b1, a1, (d1, h1) = one g1 s1 in
  let b2, a2, (d2, h2) = one g2 s2 in
  if h1 <> h2 then Mon.event "histories_diverged" 1 else begin
  if b1 <> b2 then Mon.event "snapshots_distinguish_secrets_before_wipe" 1
  else Mon.event "snapshots_blind_before_wipe" 1;
  let st, nt, bl = Mon.snap_stats () in
  Mon.event "byte_strings_inspected" st; Mon.event "native_contexts_inspected" nt; Mon.event "blocks_inspected" bl;
  Mon.seen name;
  if a1 <> a2 then
    Mon.fail "%s: after wiping, data reachable from the object still depends on the secrets (first difference at byte %d of the %d-byte snapshot)"
      name (Mon.first_diff a1 a2) (String.length a1);
  Mon.seen (name ^ "/released");
  if d1 <> d2 then Mon.fail "%s: native memory released by the wiped object still holds secret-dependent data" name
  end

let sec secret n = G.raw secret n
(* how much data the object sees before being wiped: sometimes none, sometimes whole blocks *)
let amount g m = match G.int g 6 with 0 -> 0 | 1 -> min m (G.pick g [| 8; 16; 64; 72; 128; 136; 144; 1024 |] * G.range g 1 4) | _ -> 1 + G.len g m
(* feed a transform from [msg] and leave it in a random state *)
let use_tr shape (t : transform) msg =
  let sink = Buffer.create 10 in
  let pos = ref 0 in
  let stop = G.int shape 4 in
  List.iter (fun k ->
      ignore (put_piece shape t (String.sub msg !pos k)); pos := !pos + k;
      if stop <> 0 then Work.drain shape t sink)
    (G.split shape (String.length msg));
  if stop >= 2 then (try t#finish with Cryptokit.Error _ as e -> show (Mon.exn_name e));
  show (string_of_int t#available_output);
  if stop = 3 then ignore t#get_string

let tr_sub ?(excl = []) (t : transform) =
  { root = Obj.repr t; excl; wipe = (fun () -> t#wipe) }

let cipher_fam i g =
  let kind = i land 3 in
  let kl = keylen g kind in
  let bs = if kind = 0 then 16 else 8 in
  let mode = any_mode g bs in
  let dec = G.bool g in
  let pn, pad = any_pad g in
  let n = amount g 700 in
  let u = Rf.unit_of bs mode in
  let n = if mode = Rf.CTR_N 1 then min n (200 * bs) else n in
  let n = if pn = "nopad" then n / u * u else n in
  let iv = G.bool g in
  twin (spf "%s/%d-%s-%s-%b-%s" kname.(kind) kl (Rf.mode_name mode) pn dec (if iv then "iv" else "noiv")) g
    (fun shape secret ->
       let key = sec secret kl in
       let c = cipher_of kind key in
       let ivs = if iv then Some (sec secret bs) else None in
       let t = c.cmk ~mode:(Rf.to_ck mode) ?pad ?iv:ivs key (if dec then Cipher.Decrypt else Cipher.Encrypt) in
       use_tr shape t (sec secret n);
       tr_sub ~excl:(key :: (match ivs with None -> [] | Some s -> [s])) t)

let block_fam i g =
  let kind = i land 3 in
  let kl = keylen g kind in
  let bs = if kind = 0 then 16 else 8 in
  let which = (i / 4) mod 9 in
  let n = G.int g 6 in
  let k = G.range g 1 bs in
  twin (spf "raw-%s/%d-%d" kname.(kind) kl which) g
    (fun shape secret ->
       let c = cipher_of kind (sec secret kl) in
       let iv = sec secret bs in
       let b : Block.block_cipher = match which with
         | 0 -> block_enc c | 1 -> block_dec c
         | 2 -> new Block.cbc_encrypt ~iv (block_enc c) | 3 -> new Block.cbc_decrypt ~iv (block_dec c)
         | 4 -> new Block.cfb_encrypt ~iv k (block_enc c) | 5 -> new Block.cfb_decrypt ~iv k (block_enc c)
         | 6 -> new Block.ofb ~iv k (block_enc c)
         | 7 -> new Block.ctr ~iv (block_enc c) | _ -> new Block.ctr ~iv ~inc:k (block_enc c) in
       let src = Bytes.of_string (sec secret 32) and dst = Bytes.create 32 in
       for _ = 1 to n do b#transform src (G.int shape 16) dst (G.int shape 16) done;
       { root = Obj.repr b; excl = [c.ckey; iv]; wipe = (fun () -> b#wipe) })

let stream_fam i g =
  let kl = if i land 1 = 0 then G.range g 1 256 else if G.bool g then 16 else 32 in
  let ivl = G.pick g [| 0; 8; 12 |] in
  let raw = i land 2 = 0 in
  let n = amount g 700 in
  let ctr = Int64.of_int (G.int g 1000) in
  twin (spf "%s-%s/%d-iv%d" (if i land 1 = 0 then "arcfour" else "chacha20") (if raw then "raw" else "tr") kl ivl) g
    (fun shape secret ->
       let key = sec secret kl in
       let iv = if ivl = 0 then None else Some (sec secret ivl) in
       let excl = key :: (match iv with None -> [] | Some s -> [s]) in
       if raw then begin
         let s : Stream.stream_cipher = if i land 1 = 0 then (new Stream.arcfour key :> Stream.stream_cipher)
           else (new Stream.chacha20 ?iv ~ctr key :> Stream.stream_cipher) in
         let src = Bytes.of_string (sec secret n) and dst = Bytes.create n in
         let k = G.int shape (n + 1) in
         s#transform src 0 dst 0 k; s#transform src k dst k (n - k);
         { root = Obj.repr s; excl; wipe = (fun () -> s#wipe) }
       end else begin
         let t = if i land 1 = 0 then Cipher.arcfour key Cipher.Encrypt else Cipher.chacha20 ?iv ~ctr key Cipher.Encrypt in
         use_tr shape t (sec secret n);
         tr_sub ~excl t
       end)

let hash_sub ?(excl = []) (h : hash) = { root = Obj.repr h; excl; wipe = (fun () -> h#wipe) }
let hash_fam i g =
  let n = amount g 2500 in
  let fin = G.bool g in
  let rng = G.next g in
  if i mod 2 = 0 then begin
    let k = (i / 2) mod n_hash in
    twin (spf "hash-%s" (hash_i (G.make [rng]) k).hname) g
      (fun shape secret ->
         let h = (hash_i (G.make [rng]) k).hmk () in
         ignore (feed_hash shape h (sec secret n));
         if fin then ignore h#result;
         hash_sub h)
  end else begin
    let k = (i / 2) mod n_mac in
    let m = mac_i (G.make [rng]) k in
    match m.hmk2 with
    | None -> ()
    | Some f ->
      twin (spf "mac-%s" m.hname) g
        (fun shape secret ->
           let key = sec secret (String.length (List.hd m.hsecrets)) in
           let h = f key in
           ignore (feed_hash shape h (sec secret n));
           if fin then ignore h#result;
           hash_sub ~excl:[key] h)
  end

let auth_sub ?(excl = []) (t : authenticated_transform) = { root = Obj.repr t; excl; wipe = (fun () -> t#wipe) }
let use_auth shape (t : authenticated_transform) msg =
  let sink = Buffer.create 10 in
  let pos = ref 0 in
  let stop = G.int shape 3 in
  List.iter (fun k ->
      ignore (put_piece shape t (String.sub msg !pos k)); pos := !pos + k;
      if stop <> 0 then Work.drain shape t sink)
    (G.split shape (String.length msg));
  if stop = 2 then ignore t#finish_and_get_tag
let aead_fam i g =
  let gcm = i land 1 = 0 in
  let kl = if gcm then G.pick g [| 16; 24; 32 |] else G.pick g [| 16; 32 |] in
  let ivl = if gcm then (if G.bool g then 12 else G.range g 1 40) else G.pick g [| 8; 12 |] in
  let hl = G.int g 60 and n = amount g 500 in
  let dir = if i land 2 = 0 then AEAD.Encrypt else AEAD.Decrypt in
  twin (spf "%s/%d-iv%d-h%d-%s" (if gcm then "gcm" else "chapoly") kl ivl hl (if i land 2 = 0 then "enc" else "dec")) g
    (fun shape secret ->
       let key = sec secret kl and iv = sec secret ivl and header = sec secret hl in
       let t = (if gcm then AEAD.aes_gcm else AEAD.chacha20_poly1305) ~header ~iv key dir in
       use_auth shape t (sec secret n);
       auth_sub ~excl:[key; iv; header] t)
let compose_fam i g =
  let n = 16 * G.int g 41 in
  let which = i mod 4 in
  twin (spf "compose-%d" which) g
    (fun shape secret ->
       let key = sec secret 16 and iv = sec secret 16 and mkey = sec secret 20 in
       let c () = Cipher.aes ~mode:(Cipher.CBC) ~pad:Padding.length ~iv key Cipher.Encrypt in
       let excl = [key; iv; mkey] in
       match which with
       | 0 -> let t = compose (c ()) (Base64.encode_multiline ()) in use_tr shape t (sec secret n); tr_sub ~excl t
       | 1 -> let t = compose (compose (Hexa.encode ()) (c ())) (Cipher.arcfour mkey Cipher.Encrypt) in
         use_tr shape t (sec secret n); tr_sub ~excl t
       | 2 -> let t = transform_then_hash (c ()) (MAC.hmac_sha256 mkey) in use_auth shape t (sec secret n); auth_sub ~excl t
       | _ -> let t = transform_and_hash (c ()) (MAC.hmac_sha1 mkey) in use_auth shape t (sec secret n); auth_sub ~excl t)
let enc_fam i g =
  let n = amount g 700 in
  let which = i mod 6 in
  twin (spf "encoder-%d" which) g
    (fun shape secret ->
       let s = sec secret n in
       let t, s = match which with
         | 0 -> Base64.encode_multiline (), s | 1 -> Base64.encode_compact (), s | 2 -> Base64.encode_compact_pad (), s
         | 3 -> Base64.decode (), ref_b64 true s
         | 4 -> Hexa.encode (), s | _ -> Hexa.decode (), ref_hex s in
       (* odd cuts leave partial groups inside *)
       let s = if G.bool shape then String.sub s 0 (max 0 (String.length s - G.int shape 3)) else s in
       use_tr shape t s;
       tr_sub t)
let rng_fam i g =
  let aes = i land 1 = 0 in
  let sl = G.range g 16 50 in
  let reqs = List.init (G.int g 6) (fun _ -> G.int g 70) in
  twin (if aes then "prng-aes" else "prng-chacha") g
    (fun shape secret ->
       let seed = sec secret sl in
       let r = if aes then Random.pseudo_rng_aes_ctr seed else Random.pseudo_rng seed in
       let d = Bytes.create 80 in
       List.iter (fun k -> r#random_bytes d 3 k) reqs;
       { root = Obj.repr r; excl = [seed]; wipe = (fun () -> r#wipe) })

let key_fam i g =
  let r1 = Random.pseudo_rng (G.raw g 32) in
  match i mod 3 with
  | 0 ->
    let bits = 2 * G.range g 32 200 in
    let rec go k = match RSA.new_key ~rng:r1 ~e:65537 bits with
      | x -> x | exception Cryptokit.Error _ when k > 0 -> go (k - 1) in
    let (k, pub) = go 5 in
    let pub' = String.concat "|" [ pub.RSA.n; pub.RSA.e ] in
    let pub' = Bytes.to_string (Bytes.of_string pub') in
    RSA.wipe_key k;
    List.iter (fun (n, s) ->
        Mon.seen ("rsa-wipe-" ^ n);
        String.iter (fun c -> if c <> '\000' then
                        Mon.fail "RSA.wipe_key (%d bits): component %s of the wiped key is not erased: %s" bits n (Mon.hex s)) s)
      RSA.[ "n", k.n; "d", k.d; "p", k.p; "q", k.q; "dp", k.dp; "dq", k.dq; "qinv", k.qinv ];
    Mon.check_eq "rsa-wipe-public-key-intact" ~got:(String.concat "|" [ pub.RSA.n; pub.RSA.e ]) ~want:pub'
  | 1 ->
    let bits = 2 * G.range g 32 120 in
    let (k, pub) = Paillier.new_key ~rng:r1 bits in
    let pub' = Bytes.to_string (Bytes.of_string (String.concat "|" Paillier.[ pub.n; pub.n2; pub.g ])) in
    Paillier.wipe_key k;
    List.iter (fun (n, s) ->
        Mon.seen ("paillier-wipe-" ^ n);
        String.iter (fun c -> if c <> '\000' then
                        Mon.fail "Paillier.wipe_key (%d bits): component %s of the wiped key is not erased: %s" bits n (Mon.hex s)) s)
      Paillier.[ "n", k.n; "n2", k.n2; "p", k.p; "q", k.q; "lambda", k.lambda; "mu", k.mu ];
    Mon.check_eq "paillier-wipe-public-key-intact" ~got:(String.concat "|" Paillier.[ pub.n; pub.n2; pub.g ]) ~want:pub'
  | _ ->
    let pl = 8 * (if G.bool g then G.range g 8 17 else G.range g 17 40) in
    let p = DH.new_parameters ~rng:r1 ~privlen:pl 400 in
    let other = DH.message p (DH.private_secret ~rng:r1 p) in
    let seeds = [| G.raw g 32; G.raw g 32 |] in
    let small = ref false in
    let snap k =
      let a = DH.private_secret ~rng:(Random.pseudo_rng (Bytes.to_string (Bytes.of_string seeds.(k)))) p in
      if Obj.is_int (Obj.repr a) then small := true;
      let b = Mon.snapshot a [||] true in
      ignore (DH.shared_secret p a other);
      b, Mon.snapshot a [||] true in
    let b1, a1 = snap 0 in let b2, a2 = snap 1 in
    if b1 <> b2 then Mon.event "snapshots_distinguish_secrets_before_wipe" 1;
    Mon.seen "dh-private-secret-destroyed";
    (* a number too small to be a block cannot be erased, being a copy *)
    if a1 <> a2 && not !small then Mon.fail "DH.shared_secret: the private secret (%d bits) is not destroyed" pl

(* one-shot helpers wipe what they consume *)
let helper_fam i g =
  let n = 1 + G.len g 400 in
  let tmp = Filename.temp_file ~temp_dir:"." "c15" ".in" in
  let which = i mod 8 in
  let with_in s f =
    let oc = open_out_bin tmp in output_string oc s; close_out oc;
    let ic = open_in_bin tmp in
    Fun.protect ~finally:(fun () -> close_in ic) (fun () -> f ic) in
  let wiped = ref 0 in
  Fun.protect ~finally:(fun () -> try Sys.remove tmp with _ -> ()) (fun () ->
  twin (spf "one-shot-%d" which) g
    (fun shape secret ->
       let key = sec secret 16 and iv = sec secret 16 in
       let s = sec secret n in
       let nop = (fun () -> ()) in
       let c () = Cipher.aes ~mode:(Cipher.CTR) ~iv key Cipher.Encrypt in
       match which with
       | 0 -> let t = c () in ignore (transform_string t (String.sub s 0 (n / 16 * 16))); { root = Obj.repr t; excl = [key; iv]; wipe = nop }
       | 1 -> let t = c () in
         let oc = open_out_bin "/dev/null" in
         with_in (String.sub s 0 (n / 16 * 16)) (fun ic -> transform_channel t ic oc); close_out oc;
         { root = Obj.repr t; excl = [key; iv]; wipe = nop }
       | 2 -> let h = MAC.hmac_sha256 key in ignore (hash_string h s); { root = Obj.repr h; excl = [key; iv]; wipe = nop }
       | 3 -> let h = MAC.aes_cmac key in ignore (with_in s (fun ic -> hash_channel h ic)); { root = Obj.repr h; excl = [key; iv]; wipe = nop }
       | 4 -> let t = AEAD.chacha20_poly1305 ~iv:(String.sub iv 0 12) key AEAD.Encrypt in ignore (auth_transform_string t s);
         { root = Obj.repr t; excl = [key; iv]; wipe = nop }
       | 5 -> let t = AEAD.aes_gcm ~iv key AEAD.Encrypt in ignore (auth_transform_string_detached t s);
         { root = Obj.repr t; excl = [key; iv]; wipe = nop }
       | 6 -> (* valid sealed message *)
         let ct = auth_transform_string (AEAD.aes_gcm ~iv key AEAD.Encrypt) s in
         let t = AEAD.aes_gcm ~iv key AEAD.Decrypt in
         if auth_check_transform_string t ct <> Some s then Mon.fail "auth_check_transform_string refused its own message";
         { root = Obj.repr t; excl = [key; iv]; wipe = nop }
       | _ -> (* rejected message *)
         let t = AEAD.chacha20_poly1305 ~iv:(String.sub iv 0 12) key AEAD.Decrypt in
         if auth_check_transform_string t (s ^ String.make 16 'x') <> None then Mon.fail "auth_check_transform_string accepted a forgery";
         { root = Obj.repr t; excl = [key; iv]; wipe = nop }))

let f name quick run = { Mon.name; quick; thorough = quick * 15; run }
let props = [ "C15", [
    f "cipher" 1920 cipher_fam; f "block" 1440 block_fam; f "stream" 640 stream_fam; f "hash" 1920 hash_fam;
    f "aead" 960 aead_fam; f "compose" 480 compose_fam; f "encoder" 480 enc_fam; f "prng" 320 rng_fam;
    f "keys" 120 key_fam; f "one-shot" 640 helper_fam ] ]
