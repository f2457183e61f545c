(* C17: the accelerated and the portable code give the same results.  Every
   case writes a digest of everything observed into the transcript; the driver
   compares the transcripts of all builds and processor configurations. *)
open Cryptokit
type ('a,'b) result = ('a,'b) Stdlib.result = Ok of 'a | Error of 'b
open Zoo
module G = Gen0
let spf = Printf.sprintf
let note fam i what b =
  Mon.seen (fam ^ what);
  Printf.bprintf Mon.transcript "%s %d %s %s\n" fam i (String.map (fun c -> if c <= ' ' then '_' else c) ("-" ^ what)) (Digest.to_hex (Digest.string (Buffer.contents b)))
let lens = [| 16; 24; 32 |]
let bit n k = String.init n (fun i -> if i = k / 8 then Char.chr (0x80 lsr (k mod 8)) else '\000')
(* raw AES: key expansion and both directions *)
let aes_key i g =
  let n = lens.(i mod 3) in
  match i / 3 mod 4 with
  | 0 -> bit n (G.int g (8 * n))
  | 1 -> String.make n (Char.chr (G.int g 256))
  | _ -> G.raw g n
let blocks_case i g =
  let key = aes_key i g in
  let b = Buffer.create 1000 in
  let enc = new Block.aes_encrypt key and dec = new Block.aes_decrypt key in
  for j = 0 to 15 do
    let x = match G.int g 4 with 0 -> bit 16 (G.int g 128) | 1 -> String.make 16 (Char.chr (G.int g 256)) | _ -> G.raw g 16 in
    let o = G.int g 33 and o2 = G.int g 33 in
    let one (c : Block.block_cipher) d =
      let src = Bytes.of_string (G.raw g o ^ x ^ G.raw g (G.int g 3)) in
      let dst, o2 = match j mod 3 with 0 -> src, o | 1 -> src, min (Bytes.length src - 16) o2 | _ -> Bytes.make (o2 + 16) '-', o2 in
      let overlap = dst == src && o2 <> o in
      if not overlap then begin
        c#transform src o dst o2;
        let r = Bytes.sub_string dst o2 16 in
        Buffer.add_string b r;
        Mon.check_eq (spf "aes/%d %s" (8 * String.length key) (if d then "decrypt" else "encrypt")) ~got:r ~want:(Rf.ecb 0 d key x)
      end in
    one (enc :> Block.block_cipher) false; one (dec :> Block.block_cipher) true
  done;
  note "blocks" i (spf "aes%d" (8 * String.length key)) b
(* every mode and padding over AES *)
let modes_case i g =
  let c = any_cipher ~kind:0 g in
  let b = Buffer.create 1000 in
  for _ = 1 to 3 do
    let t = cipher_tr g (G.bool g) in
    let s = t.tin g (G.len g 700) in
    let out = Buffer.create 1000 in
    Work.run_tr g (t.tmk ()) s out;
    let r = Buffer.contents out in
    Mon.check_eq t.tname ~got:r ~want:(t.tref s);
    Buffer.add_string b r
  done;
  note "modes" i c.cname b
let gcm_case i g =
  let key = aes_key i g in
  let a = match i mod 5 with
    | 0 -> gcm_inst ~key ~hdr:(G.str g (G.range g 0 70)) g
    | 1 -> gcm_inst ~key ~iv:(G.str g (G.range g 1 300)) g
    | _ -> gcm_inst ~key g in
  let m = G.str g (G.len g (if i mod 7 = 0 then 5000 else 400)) in
  let b = Buffer.create 1000 in
  let ct, tag = run_auth g (a.aenc ()) m in
  Buffer.add_string b ct; Buffer.add_string b tag;
  Mon.check_eq a.aname ~got:(ct ^ tag) ~want:(a.aref m);
  (match Mon.catch (fun () -> auth_check_transform_string (a.adec ()) (ct ^ tag)) with
   | Ok (Some p) -> Buffer.add_string b p
   | Ok None -> Buffer.add_string b "refused" | Error e -> Buffer.add_string b e);
  let _, c2 = Work.corrupt g (ct ^ tag) in
  (match Mon.catch (fun () -> auth_check_transform_string (a.adec ()) c2) with
   | Ok (Some p) -> Buffer.add_string b ("!" ^ p)
   | Ok None -> Buffer.add_string b "refused" | Error e -> Buffer.add_string b e);
  note "gcm" i a.aname b
(* GHASH with structured field elements: the hash of single blocks, via the tag *)
let ghash_case i g =
  let key = aes_key i g and iv = G.raw g 12 in
  let b = Buffer.create 1000 in
  for k = 0 to 15 do
    let hdr = match k mod 4 with
      | 0 -> bit 16 ((16 * i + k) mod 128) | 1 -> String.make 16 '\255'
      | 2 -> bit 16 (G.int g 128) ^ bit 16 (G.int g 128) | _ -> G.raw g (G.range g 1 80) in
    let a = gcm_inst ~key ~iv ~hdr g in
    let r = auth_transform_string (a.aenc ()) "" in
    Mon.check_eq ("ghash " ^ a.aname) ~got:r ~want:(a.aref "");
    Buffer.add_string b r
  done;
  note "ghash" i (spf "aes%d" (8 * String.length key)) b
let scen_case i g =
  let n, f = Work.scenarios.(i mod Work.n_sc) in
  let b = Buffer.create 1000 in
  let what, got, want = try f g b with (Mon.Violation _ as e) -> raise e | e -> (n, "!" ^ Mon.exn_name e, "") in
  Buffer.add_string b got;
  if not (String.length got > 0 && got.[0] = '!' && want = "") then Mon.check_eq what ~got ~want;
  note "scenario" i (n ^ "/" ^ what) b
let macs_case i g =
  let b = Buffer.create 100 in
  for k = 0 to 3 do
    let m = mac_i g ((4 * i + k) mod n_mac) in
    let s = G.str g (G.len g 300) in
    let o = m.hmk () in
    ignore (feed_hash g o s);
    let r = o#result in
    Mon.check_eq m.hname ~got:r ~want:(m.href s);
    Buffer.add_string b r
  done;
  note "macs" i "" b
let rng_case i g =
  let seed = G.raw g (G.range g 16 40) in
  let r = Random.pseudo_rng_aes_ctr seed in
  let b = Buffer.create 100 in
  for _ = 1 to 6 do Buffer.add_string b (Random.string r (G.int g 70)) done;
  r#wipe; note "rng" i "" b
(* a processor that lacks the instructions must never be given them: count them by single stepping *)
let features_case i g =
  let off = match Sys.getenv_opt "VERIF_CPU_OFF" with None -> "" | Some s -> s in
  let key = aes_key i g in
  let x = Bytes.of_string (G.raw g 16) in
  let iv = G.raw g 12 and hdr = G.raw g (G.int g 40) and m = G.raw g (G.int g 40) in
  let n, _ = Mon.steps (fun () ->
      let e = new Block.aes_encrypt key and d = new Block.aes_decrypt key in
      e#transform x 0 x 0; d#transform x 0 x 0; e#wipe; d#wipe;
      ignore (auth_transform_string (AEAD.aes_gcm ~header:hdr ~iv key AEAD.Encrypt) m)) in
  let a, c, consulted = Mon.accel_seen () in
  Mon.event "instructions_watched" n; Mon.event "aes_instructions" a; Mon.event "clmul_instructions" c;
  Mon.seen (spf "features off=%s aes%d" off (8 * String.length key));
  (* only if the library asked the processor in the way that can be hidden from it *)
  if consulted > 0 then begin
    if Str_find.mem "aes" off && a > 0 then Mon.fail "%d AES instructions executed on a processor without them" a;
    if Str_find.mem "pclmul" off && c > 0 then Mon.fail "%d carry-less multiplications executed on a processor without them" c
  end
let f name quick thorough run = { Mon.name; quick; thorough; run }
let props = [ "C17", [
    f "features" 72 480 features_case; f "blocks" 4500 60000 blocks_case; f "modes" 2250 30000 modes_case; f "gcm" 4500 60000 gcm_case;
    f "ghash" 1500 20000 ghash_case; f "scenario" 6000 60000 scen_case; f "macs" 1200 16000 macs_case; f "rng" 600 8000 rng_case ] ]
