(* C30: transform_channel and hash_channel *)
open Cryptokit
type ('a,'b) result = ('a,'b) Stdlib.result = Ok of 'a | Error of 'b
open Zoo
module G = Gen0
let spf = Printf.sprintf

let slurp f = let ic = open_in_bin f in let s = really_input_string ic (in_channel_length ic) in close_in ic; s
(* an input channel over [s], of various kinds *)
let with_ic g s k =
  if G.chance g 3 && String.length s <= 60000 then begin
    let r, w = Unix.pipe ~cloexec:true () in
    let n = Unix.write_substring w s 0 (String.length s) in
    assert (n = String.length s);
    Unix.close w;
    let ic = Unix.in_channel_of_descr r in
    Fun.protect ~finally:(fun () -> close_in_noerr ic) (fun () -> k "pipe" ic)
  end else begin
    let f = Filename.temp_file ~temp_dir:"." "in" ".dat" in
    let oc = open_out_bin f in output_string oc s; close_out oc;
    let ic = open_in_bin f in
    Fun.protect ~finally:(fun () -> close_in_noerr ic; Sys.remove f) (fun () -> k "file" ic)
  end
let with_oc k =
  let f = Filename.temp_file ~temp_dir:"." "out" ".dat" in
  let oc = open_out_bin f in
  Fun.protect ~finally:(fun () -> close_out_noerr oc; Sys.remove f) (fun () -> k f oc)
let arrival g =
  (* how much each read of the descriptor delivers *)
  match G.int g 5 with 0 -> 0 | 1 -> G.range g 1 3 | 2 -> G.pick g [| 255; 256; 257; 512 |] | 3 -> G.range g 1 300 | _ -> G.range g 1 5000
let size g = match G.int g 5 with
  | 0 -> G.int g 20 | 1 -> 256 * G.range g 0 6 + G.range g (-3) 3 | 2 -> G.len g 3000 | 3 -> G.range g 0 2000
  | _ -> if G.chance g 10 then 65536 + G.range g (-300) 300 else G.len g 9000
let drain_mode g ic pre =
  if pre > 0 then ignore (really_input_string ic pre)
type want = Out of string | Exn of string

(* [go ?len ic] performs the operation; [expect s] is the outcome on exactly s *)
let scenario g ~data ~bounded ~op ~check =
  let pre = if G.bool g then 0 else G.pick g [| 1; 3; 255; 256; 300 |] in
  let extra = if bounded then (match G.int g 3 with 0 -> "" | 1 -> G.raw g (G.range g 1 20) | _ -> G.raw g (G.len g 1000)) else "" in
  let s = G.raw g pre ^ data ^ extra in
  with_ic g s (fun kind ic ->
      Mon.read_set 1 (arrival g) (-1) 0 (G.next g land 0xffffff);
      drain_mode g ic pre;
      let len = if bounded then Some (String.length data) else None in
      let r = Mon.catch (fun () -> op len ic) in
      let key = spf "%s n=%d %s pre=%d extra=%d" kind (String.length data) (if bounded then "bounded" else "eof") pre (String.length extra) in
      check key r;
      (* position afterwards *)
      if (match r with Ok _ -> true | Error _ -> false) then begin
        let rest = let b = Buffer.create 100 in
          (try while true do Buffer.add_char b (input_char ic) done with End_of_file -> ()); Buffer.contents b in
        Mon.check_eq (spf "%s: rest of the channel" key) ~got:rest ~want:extra
      end;
      Mon.event "reads" (Mon.read_calls ());
      Mon.read_set 0 0 (-1) 0 0)
let hash_case i g =
  let h = if i land 1 = 0 then any_hash g else any_mac g in
  let data = G.str g (max 0 (size g)) in
  let want = h.href data in
  scenario g ~data ~bounded:(G.bool g)
    ~op:(fun len ic -> hash_channel (h.hmk ()) ?len ic)
    ~check:(fun key r -> match r with
        | Ok d -> Mon.check_eq (spf "hash_channel %s %s" h.hname key) ~got:d ~want
        | Error e -> Mon.fail "hash_channel %s %s raised %s" h.hname key e)
let tr_any g = match G.int g 8 with
  | 0 -> let t, hdr = compress_tr g in { t with tname = t.tname; tref = (fun m -> m) }, (fun out -> let st, o = Rf.inflate hdr out in if st <> 0 then "not a stream" else o)
  | 1 -> { (mk_t "b64multi" Base64.encode_multiline (ref_b64 true) (fun g n -> G.str g n)) with texact = false }, strip_nl
  | _ -> any_tr g, (fun o -> o)
let tr_case i g =
  let t, norm = tr_any g in
  let data = t.tin g (max 0 (size g)) in
  let want = t.tref data in
  let pre = if G.bool g then "" else G.raw g (G.pick g [| 1; 10; 65530; 300 |]) and post = if G.bool g then "" else "END" in
  with_oc (fun f oc ->
      output_string oc pre;
      scenario g ~data ~bounded:(G.bool g)
        ~op:(fun len ic -> transform_channel (t.tmk ()) ?len ic oc)
        ~check:(fun key r -> match r with
            | Ok () ->
              output_string oc post; close_out oc;
              let got = slurp f in
              let key = spf "transform_channel %s %s" t.tname key in
              let lp = String.length pre and lq = String.length post and l = String.length got in
              Mon.check (key ^ ": other output disturbed") (l >= lp + lq && String.sub got 0 lp = pre && String.sub got (l - lq) lq = post);
              Mon.check_eq key ~got:(norm (String.sub got lp (l - lp - lq))) ~want
            | Error e -> Mon.fail "transform_channel %s %s raised %s" t.tname key e))
(* fewer bytes than requested: End_of_file *)
let short_case i g =
  let n = max 0 (size g) in
  let data = G.str g n in
  let miss = match G.int g 4 with 0 -> 1 | 1 -> G.range g 1 300 | 2 -> 256 | _ -> max_int - n in
  with_ic g data (fun kind ic ->
      Mon.read_set 1 (arrival g) (-1) 0 (G.next g land 0xffffff);
      let h = any_hm g in
      let key = spf "short %s n=%d" kind n in
      let r = if i land 1 = 0 then Mon.catch (fun () -> hash_channel (h.hmk ()) ~len:(n + miss) ic)
        else begin
          let t = match G.int g 3 with 0 -> Hexa.encode () | 1 -> Cipher.arcfour "key" Cipher.Encrypt | _ -> Zlib.compress () in
          with_oc (fun _ oc -> Mon.catch (fun () -> transform_channel t ~len:(n + miss) ic oc; "done"))
        end in
      Mon.seen key;
      match r with
      | Error e when e = Printexc.to_string End_of_file -> Mon.event "end_of_file_reported" 1
      | Error e -> Mon.fail "%s: %s instead of End_of_file" key e
      | Ok _ -> Mon.fail "%s: completed although %d bytes were missing" key miss)
(* a failing device must not be taken for the end of the data *)
let fail_case i g =
  let n = G.range g 300 200_000 in
  let data = G.raw g n in
  let f = Filename.temp_file ~temp_dir:"." "in" ".dat" in
  let oc = open_out_bin f in output_string oc data; close_out oc;
  let ic = open_in_bin f in
  Fun.protect ~finally:(fun () -> close_in_noerr ic; Sys.remove f) (fun () ->
      let max = G.pick g [| 0; 100; 4000 |] in
      Mon.read_set 1 max (G.int g 5) 1 (G.next g land 0xffff);
      let len = if G.bool g then None else Some (G.range g 1 n) in
      let used = match len with None -> n | Some l -> l in
      let h = any_hash g in
      let r = if G.bool g then Mon.catch (fun () -> hash_channel (h.hmk ()) ?len ic)
        else with_oc (fun fo oc -> Mon.catch (fun () -> transform_channel (Hexa.encode ()) ?len ic oc; close_out oc; Mon.read_set 0 0 (-1) 0 0; h.href (hex_dec (slurp fo)))) in
      let failed = Mon.read_failed () > 0 in
      Mon.read_set 0 0 (-1) 0 0;
      match r with
      | Ok d -> Mon.check_eq (spf "completed with a device failing later, used=%d" used) ~got:d ~want:(h.href (String.sub data 0 used))
      | Error e -> Mon.check (spf "raised %s without any read failure" e) failed; Mon.event "read_errors_reported" 1)
(* a real writer that delivers in bursts *)
let burst_case i g =
  let data = G.raw g (G.range g 1 6000) in
  let pieces = G.split g (String.length data) in
  let r, w = Unix.pipe ~cloexec:true () in
  let th = Thread.create (fun () ->
      let pos = ref 0 in
      List.iter (fun k -> if k > 0 then begin
          ignore (Unix.write_substring w data !pos k); pos := !pos + k; Thread.delay 0.0005 end) pieces;
      Unix.close w) () in
  let ic = Unix.in_channel_of_descr r in
  let k = if G.bool g then None else Some (G.int g (String.length data + 1)) in
  let used = match k with None -> String.length data | Some k -> k in
  let h = any_hm g in
  let d = hash_channel (h.hmk ()) ?len:k ic in
  Mon.check_eq (spf "burst %s" h.hname) ~got:d ~want:(h.href (String.sub data 0 used));
  let rest = Buffer.create 10 in
  (try while true do Buffer.add_char rest (input_char ic) done with End_of_file -> ());
  Thread.join th; close_in ic;
  Mon.check_eq "burst rest" ~got:(Buffer.contents rest) ~want:(String.sub data used (String.length data - used))
let zero_case i g =
  (* a zero bound consumes nothing *)
  let data = G.raw g (G.int g 300) in
  with_ic g data (fun kind ic ->
      let h = any_hm g in
      Mon.check_eq "hash zero bytes" ~got:(hash_channel (h.hmk ()) ~len:0 ic) ~want:(h.href "");
      with_oc (fun f oc ->
          transform_channel (Base64.encode_compact_pad ()) ~len:0 ic oc; close_out oc;
          Mon.check_eq "transform zero bytes" ~got:(slurp f) ~want:"");
      Mon.check_eq "nothing consumed" ~got:(really_input_string ic (String.length data)) ~want:data)
let f name quick thorough run = { Mon.name; quick; thorough; run }
let props = [
  "C30", [ f "hash" 7500 60000 hash_case; f "transform" 7500 60000 tr_case; f "short" 3000 20000 short_case; f "failing" 1500 10000 fail_case;
           f "burst" 180 1000 burst_case; f "zero" 300 1000 zero_case ];
]
