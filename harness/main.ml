(* monitor.exe PROP TIER SEED SHARD NSHARDS OUTDIR DEADLINE [FAMILY [CASE]] *)
module G = Gen0
let all = List.concat All.props
(* The workloads of the other properties, watched here for something else: memory accesses (C12), dependence on
   collections (C14), dependence on the contents of fresh memory (C16).  A wrong result that does not come from
   these is the business of the other property and is ignored. *)
let deterministic = [
  "C01", ["lengths"; "output-sizes"; "random"; "tree"]; "C02", ["random-splits"; "two-piece"; "interleaved"; "long"];
  "C03", ["random"; "lengths"; "hmac-keys"; "blake-keys"; "cbcmac-nopad"; "cmac-subkeys"];
  "C04", ["random"; "keys"; "chain"; "ecb"]; "C05", ["random"; "widths"; "carry"; "long"];
  "C06", ["roundtrip"; "reject"; "length"; "pad-objects"];
  "C07", ["arcfour"; "arcfour-keys"; "chacha20"; "carry"; "long"]; "C08", ["n1"; "no-early-stop"];
  "C09", ["random"; "one-shot"; "iv-lengths"; "counter-wrap"; "ghash"; "poly1305-edges"; "long"]; "C10", ["tamper"; "composed"];
  "C11", ["random"; "multiline"; "compress"; "compose"; "compose-inverse"; "slow-drain"; "authenticated"];
  "C18", ["stream"; "interleaved"]; "C22", ["derive"]; "C23", ["encode"; "inverse"; "junk"; "random"]; "C24", ["encode"; "flush"; "junk"];
  "C25", ["compress"; "uncompress"; "conversation"]; "C26", ["corrupt"; "arbitrary"]; "C29", ["xor"; "modular"]; "C31", ["digest-sizes"; "triple"] ]
let attempt f i s =
  let g = { G.s = s } in
  match f.Mon.run i g with
  | () -> None
  | exception Mon.Violation m -> Some m
  | exception e -> Some (Printexc.to_string e)
let via prop =
  let wrap n div f p =
    let q = max 8 (min n (f.Mon.quick / div)) and t = max 8 (f.Mon.thorough / div) in
    let run = match prop with
      | "C12" -> (fun i g ->
          Mon.arena_set (if (i / 8) land 3 = 3 then 2 else 1);
          ignore (attempt f i g.G.s);
          Mon.arena_set 0;
          Mon.gc_set 0 (-1); Mon.fill_set (-1);
          let bad = Mon.arena_check () in
          Mon.check (Printf.sprintf "red zones after %s/%s" p f.Mon.name) (bad = 0);
          if Mon.arena_used () > 1 lsl 25 then begin Gc.full_major (); Mon.arena_reset () end)
      | _ -> (fun i g ->
          let s = g.G.s in
          let k = G.int g 1000 in
          let arm () = if prop = "C14" then begin Mon.gc_stub_only true; Mon.gc_set 1 (-1) end else Mon.fill_set (1 + k land 127) in
          let disarm () = Mon.gc_set 0 (-1); Mon.gc_stub_only false; Mon.fill_set (-1) in
          let armed () = arm (); let r = attempt f i s in disarm (); r in
          Mon.seen (Printf.sprintf "%s/%s" p f.Mon.name);
          match armed () with
          | None -> ()
          | Some m ->
            (match attempt f i s with
             | Some _ -> Mon.event "failures_of_another_kind" 1
             | None ->
               match armed () with
               | None -> Mon.event "unstable_failures" 1
               | Some _ ->
                 Mon.fail "%s/%s passes, but with %s: %s" p f.Mon.name
                   (if prop = "C14" then "a collection at every native allocation" else "garbage in fresh memory") m)) in
    { Mon.name = Printf.sprintf "via-%s-%s" p f.Mon.name; quick = q; thorough = t; run } in
  List.concat_map (fun (p, names) ->
      let fs = try List.assoc p all with Not_found -> [] in
      List.filter_map (fun f -> if List.mem f.Mon.name names then
                          Some (match prop with "C12" -> wrap 600 10 f p | "C14" -> wrap 160 30 f p | _ -> wrap 1500 8 f p) else None) fs)
    deterministic
let all = List.map (fun (p, fs) -> if p = "C12" || p = "C14" || p = "C16" then p, fs @ via p else p, fs) all
(* First uses in a fresh process: what the library sets up once per process must not depend on which operation
   comes first.  The process started runs one case only, either of a designed family ("cold-one") or of any other. *)
let cold_fams p fs =
  let kinds = List.assoc_opt p Work.cold_kinds in
  let big n = Str_find.mem "huge" n || Str_find.mem "2^" n || Str_find.mem "long" n || Str_find.mem "via-" n in
  let others = Array.of_list (List.filter (fun f -> f.Mon.quick >= 60 && not (big f.Mon.name)) fs) in
  let cold_one = match kinds with
    | None -> []
    | Some k -> [ { Mon.name = "cold-one"; quick = 0; thorough = 0; run = (fun _ g -> Work.cold k g) } ] in
  let run i g =
    if not (Mon.is_asan ()) || G.chance g 4 then begin
      let fam, case = match kinds with
        | Some _ when others = [||] || not (G.chance g 4) -> "cold-one", i
        | _ -> let f = G.pick g others in f.Mon.name, G.int g f.Mon.quick in
      match Mon.spawn_case fam case with
      | None -> ()
      | Some m -> Mon.fail "in a fresh process, %s/%d: %s" fam case m
    end in
  if kinds = None && others = [||] then fs else
    fs @ cold_one @ [ { Mon.name = "cold"; quick = (if kinds = None then 48 else 240); thorough = (if kinds = None then 800 else 4000); run } ]
let all = List.map (fun (p, fs) -> if List.mem p [ "C12"; "C14"; "C19"; "C27"; "C28" ] then p, fs else p, cold_fams p fs) all
(* long-lived processes: tens of thousands of objects of one kind, one after the other or alive together *)
let all = List.map (fun (p, fs) ->
    let fs = match List.assoc_opt p Work.wear_kinds with
      | None -> fs
      | Some k -> fs @ [ { Mon.name = "wear"; quick = Array.length k; thorough = 6 * Array.length k; run = Work.wear ?old:(List.assoc_opt p Work.cold_kinds) k } ] in
    let fs = match List.assoc_opt p Work.near_kinds with
      | None -> fs
      | Some f -> fs @ [ { Mon.name = "near"; quick = 1600; thorough = 6000; run = f } ] in
    let fs = if List.mem p [ "C02"; "C16" ] then fs @ [ { Mon.name = "crowd"; quick = 96; thorough = 960; run = Work.crowd } ] else fs in
    p, fs) all
let jstr s =
  let b = Buffer.create 64 in
  Buffer.add_char b '"';
  String.iter (fun c -> match c with
      | '"' -> Buffer.add_string b "\\\"" | '\\' -> Buffer.add_string b "\\\\"
      | '\n' -> Buffer.add_string b "\\n"
      | c when Char.code c < 32 || Char.code c > 126 -> Printf.bprintf b "\\u%04x" (Char.code c)
      | c -> Buffer.add_char b c) s;
  Buffer.add_char b '"'; Buffer.contents b
(* VERIF_SKIP=a|b: leave out the families whose name contains a or b (only for experiments) *)
let skipped name = match Sys.getenv_opt "VERIF_SKIP" with
  | None | Some "" -> false
  | Some l -> List.exists (fun k -> Str_find.mem k name) (String.split_on_char '|' l)
let () =
  let a i = Sys.argv.(i) in
  if a 1 = "list" then begin
    List.iter (fun (p, fs) -> List.iter (fun f -> Printf.printf "%s %s %d %d\n" p f.Mon.name f.Mon.quick f.Mon.thorough) fs) all;
    exit 0
  end;
  let prop = a 1 and tier = a 2 and seed = int_of_string (a 3) in
  let shard = int_of_string (a 4) and nsh = int_of_string (a 5) and outdir = a 6 in
  let deadline = Unix.gettimeofday () +. float_of_string (a 7) in
  let only_fam = if Array.length Sys.argv > 8 then Some (a 8) else None in
  let only_case = if Array.length Sys.argv > 9 then Some (int_of_string (a 9)) else None in
  let scale = match Sys.getenv_opt "VERIF_SCALE" with Some s -> float_of_string s | None -> 1.0 in
  (* a hanging operation must not block the check for ever *)
  let tag = Printf.sprintf "%s/%d" outdir shard in
  Mon.status_open (tag ^ ".status");
  let fams = try List.assoc prop all with Not_found -> prerr_endline "HARNESS-ERROR: unknown property"; exit 3 in
  let viols = ref [] and harness_err = ref None and truncated = ref false in
  let cases = ref 0 in
  List.iter (fun f ->
      if (only_fam = None || only_fam = Some f.Mon.name) && not (skipped f.Mon.name) then begin
        let n = if tier = "thorough" then f.Mon.thorough else f.Mon.quick in
        let n = if scale = 1.0 || n < 50 then n else max 1 (int_of_float (float n *. scale)) in
        let lo, hi, step = match only_case with
          | Some i -> i, i, 1 | None -> shard, n - 1, nsh in
        let i = ref lo and stop = ref false in
        while not !stop && !i <= hi do
          let g = G.make [ seed; Hashtbl.hash prop; Hashtbl.hash f.Mon.name; !i ] in
          Mon.status (Printf.sprintf "%s %d" f.Mon.name !i);
          incr cases;
          (try f.Mon.run !i g with
           | Mon.Violation m -> viols := (f.Mon.name, !i, m) :: !viols; stop := true
           | Failure m when String.length m >= 13 && String.sub m 0 13 = "HARNESS-ERROR" ->
             harness_err := Some m; stop := true
           | e -> viols := (f.Mon.name, !i, "unexpected exception " ^ Printexc.to_string e) :: !viols; stop := true);
          (* leave every injection mechanism disarmed *)
          Mon.gc_set 0 (-1); Mon.gc_stub_only false; Mon.fill_set (-1); Mon.arena_set 0; Mon.ent_set 0 (-1); Mon.read_set 0 0 (-1) 0 0; Mon.rr_set 0 (-1) 0;
          (match !viols with
           | (f, k, m) :: r when !stop -> viols := (f, k, Bytes.to_string (Bytes.of_string m)) :: r
           | _ -> ());
          if Unix.gettimeofday () > deadline then begin truncated := true; stop := true end;
          i := !i + step
        done
      end) fams;
  Mon.status "done 0";
  let oc = open_out_bin (tag ^ ".keys") in
  Hashtbl.iter (fun k () -> output_string oc (Printf.sprintf "%x\n" k)) Mon.distinct;
  close_out oc;
  if Buffer.length Mon.transcript > 0 then begin
    let oc = open_out_bin (tag ^ ".tr") in
    Buffer.output_buffer oc Mon.transcript; close_out oc
  end;
  let oc = open_out_bin (tag ^ ".json") in
  let cn = [| "byte_strings_allocated"; "collections_forced"; "redzoned_strings"; "canaries_checked"; "native_live";
              "native_acquired"; "native_released"; "native_bad_release"; "deflate_init"; "deflate_end"; "inflate_init";
              "inflate_end"; "zlib_bad_end"; "stub_allocation_points" |] in
  Array.iteri (fun k n -> Mon.event n (Mon.counter k)) cn;
  Mon.event "redzoned_numbers" (Mon.counter 91);
  Printf.fprintf oc "{\"cases\":%d,\"evals\":%d,\"truncated\":%b,\"harness_error\":%s,\"samples\":[%s],\"events\":{%s},\"violations\":[%s]}\n"
    !cases !Mon.evals !truncated (match !harness_err with None -> "null" | Some m -> jstr m)
    (String.concat "," (List.map jstr (List.rev !Mon.samples)))
    (String.concat "," (Hashtbl.fold (fun k v acc -> Printf.sprintf "%s:%d" (jstr k) !v :: acc) Mon.events []))
    (String.concat "," (List.map (fun (f, i, m) ->
         Printf.sprintf "{\"family\":%s,\"case\":%d,\"msg\":%s}" (jstr f) i (jstr m)) (List.rev !viols)));
  close_out oc
