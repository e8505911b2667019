"""which contracts decide which property"""
CRATES = ["corecrypto", "tools"]
CONTRACTS = ["corecrypto", "tools"]
MODS = ["corecrypto::primitives", "corecrypto::protected", "corecrypto::cipher", "corecrypto::stream", "corecrypto::key", "corecrypto::header",
        "tools::key::add", "tools::key::change", "tools::key::delete", "tools::key::verify", "tools::header::dump", "tools::header::strip", "tools::header::restore",
        "tools::overwrite", "tools::hash", "tools::hasher", "tools::utils", "tools::encrypt", "tools::decrypt"]
PRIM, PROT, CIPH, STREAM, KEY, HEAD = "corecrypto::primitives::*", "corecrypto::protected::*", "corecrypto::cipher::*", "corecrypto::stream::*", "corecrypto::key::*", "corecrypto::header::*"
HASH = ["corecrypto::key::argon2id_hash", "corecrypto::key::balloon_hash", "corecrypto::header::HashingAlgorithm::*"]
TKEY = ["tools::key::decrypt_v5_master_key_with_index", "tools::key::encrypt_master_key"]
BASE_ASSUME = [
    "the AEAD crates seal and open as the model says: opening inverts sealing, a sealed text opens to one message only, lengths grow by 16 (prelude/stubs.rs, modules model and aead)",
    "the aead crate's LE31 stream wrappers add the block counter and last-block flag to the nonce prefix and fail when the counter is used up",
    "readers, writers and seekers behave as std documents: a read returns a prefix of what is left, a write takes a prefix of what it is given, nothing else changes",
    "argon2, balloon-hash, blake3 and rand compute what their interface promises",
    "RefCell borrows of one request do not alias (each `&RefCell<T>` field is taken as `&mut T`)",
    "lengths fit usize on a 64-bit machine; machine arithmetic of the code itself is checked for overflow",
]
WORLD_ASSUME = [
    "the operating system and walkdir do what prelude/os.rs says: create_new opens only what is not there, truncate is the only way opening discards content, removing removes the named path, a walk lists everything below",
    "what kind of file a path names does not change while one operation runs; paths are compared as text, so two names of one file (hard links, links, `.`) are different paths",
    "threads run to their end where they are spawned; their join gives their result",
]
STOR = dict(contracts=["corecrypto", "tools", "storage"], mods=["tools::storage", "tools::erase", "tools::erase_dir"], assume=WORLD_ASSUME)
ARCH_ASSUME = WORLD_ASSUME + [
    "the zip crate stores and lists entries as prelude/os.rs says (a finished archive parses to the entries written; a name is refused when it was used before or is too long; enclosed_name gives only paths without root, prefix or parent parts)",
    "the plaintext archive decrypts to at most what a byte sequence can be; a storage given by someone else behaves as the Storage contract",
]
ARCH = dict(contracts=["corecrypto", "tools", "storage", "archive"], mods=["tools::storage", "tools::pack", "tools::unpack"], assume=ARCH_ASSUME)
CLI_ASSUME = ARCH_ASSUME + [
    "clap hands over what was typed: get_one, get_many, contains_id agree and answer only for arguments that cli.rs defines for the subcommand (that it defines those asked for is run, not proved)",
    "the terminal and standard input: read_line gives the next line, rpassword the typed line; std::env::var gives the same answer all through one run; exit ends the program",
    "main.rs and cli.rs hand the parsed arguments to the subcommands (run, not proved)",
    "the question the tools ask for an archived entry is the closure that unpack.rs hands them (its body is under contract; that an unanswered question is reported in the end is run, not proved)",
]
CLI = dict(contracts=["corecrypto", "tools", "storage", "archive", "cli"], crates=["corecrypto", "tools", "cli"], cli=True, assume=CLI_ASSUME,
           mods=["tools::storage", "tools::erase", "tools::erase_dir", "tools::pack", "tools::unpack", "cli::cli::prompt", "cli::global::states", "cli::global::structs", "cli::global::parameters",
                 "cli::subcommands::encrypt", "cli::subcommands::decrypt", "cli::subcommands::pack", "cli::subcommands::erase", "cli::subcommands::hashing", "cli::subcommands::header", "cli::subcommands::unpack"])
PARAMS = ["cli::global::states::*", "cli::global::parameters::*"]
SUBS = ["cli::subcommands::encrypt", "cli::subcommands::decrypt", "cli::subcommands::pack"]
RUN = "the real command line is run by an unprivileged user in a scratch directory; "
def p(fns, battery, bounded, **k): return dict(fns=fns, battery=battery, bounded=bounded, **k)
GEN = "seeded and enumerated inputs are run through the real code and compared with oracles written from the published formats; "
PROPS = {
 "C01": p([PRIM, PROT, CIPH, STREAM, KEY, HEAD, "tools::encrypt::*", "tools::decrypt::*"], ["core", "tools"], GEN + "contents around block-size multiples, every algorithm, chunkings, attached, detached and stripped layouts"),
 "C02": p([PROT, CIPH, STREAM, KEY, HEAD, "tools::decrypt::*"], ["core", "tools"], GEN + "flips, cuts, duplications, reorderings and appended bytes, and every authenticated header byte"),
 "C03": p([PRIM, PROT, STREAM], ["core"], GEN + "lengths around block-size multiples, chunkings, nonce lengths, block counters"),
 "C04": p([PRIM, HEAD], ["core"], GEN + "random well-formed headers of every writable version, tables with holes, piecewise writers"),
 "C05": p([PRIM, HEAD], ["core"], GEN + "every tag value, every length, seeded byte strings, faults"),
 "C06": p([PRIM, HEAD], ["core"], GEN + "random headers of every version"),
 "C07": p([PROT, CIPH, KEY, HEAD] + TKEY, ["core"], GEN + "orders of keyslots, keys, damaged slots"),
 "C08": p([PRIM, PROT, CIPH, KEY, HEAD, "tools::key::add::*"] + TKEY, ["tools"], GEN + "numbers and orders of keyslots, keys, chunkings, faults"),
 "C09": p([PRIM, PROT, CIPH, KEY, HEAD, "tools::key::change::*"] + TKEY, ["tools"], GEN + "numbers and orders of keyslots, keys, chunkings, faults"),
 "C10": p([PRIM, PROT, CIPH, KEY, HEAD, "tools::key::delete::*"] + TKEY, ["tools"], GEN + "numbers and orders of keyslots, keys, chunkings, faults"),
 "C11": p([PROT, CIPH, KEY, HEAD, "tools::key::verify::*"] + TKEY, ["tools"], GEN + "numbers and orders of keyslots, keys, chunkings, faults"),
 "C12": p([PRIM, HEAD, "tools::header::*"], ["tools"], GEN + "headers of every version, bodies, refused targets, faults"),
 "C13": p(["tools::overwrite::*"], ["tools"], GEN + "lengths, numbers of passes, writers, faults"),
 "C14": p(["tools::erase::*", "tools::overwrite::*", "tools::storage::*"], ["tools"], GEN + "lengths, numbers of passes, directories and missing files, faults of the storage at each step", **STOR),
 "C15": p(["tools::erase_dir::*", "tools::erase::*", "tools::overwrite::*", "tools::storage::*"], ["tools"], GEN + "trees with hidden files, links and empty directories, faults of the storage at each step", **STOR,
          note="Threads are taken to run at the point where they are spawned. "),
 "C27": p(["tools::storage::*"], ["tools"], GEN + "existing and missing paths, kinds of files, trees", **STOR),
 "C21": p([PRIM, PROT, CIPH, STREAM, KEY, HEAD, "tools::encrypt::*", "tools::decrypt::*", "tools::pack::*", "tools::unpack::*", "tools::storage::*"], ["tools"],
          GEN + "trees with empty, block-sized and larger files, nested, hidden and empty directories, odd names, both compressions", **ARCH),
 "C22": p(["tools::unpack::*", "tools::storage::*"], ["tools", "cli"], GEN + "archives with absolute, parent, drive and otherwise malicious names, through the library and through the real command line (run by an unprivileged user in a scratch directory)", **ARCH),
 "C23": p(["tools::pack::*", "tools::unpack::*", "tools::overwrite::*", "tools::storage::*"], ["tools", "cli"], GEN + "faults of the storage at each step of packing and unpacking, callbacks that panic; through the real command line: unanswered questions, odd names, and a fault at each call that touches a file",
          beyond=["when the work succeeded and overwriting the temporary file fails, which of the two is reported"], **ARCH),
 "C24": p(["cli::cli::prompt::*", "cli::subcommands::encrypt::*", "cli::subcommands::decrypt::*", "cli::subcommands::pack::*", "cli::subcommands::erase::*", "cli::subcommands::hashing::*"] + SUBS + ["cli::subcommands::erase", "cli::subcommands::hash_stream"] + PARAMS, ["cli"],
          RUN + "combinations of options, failing requests, and for each operation a fault, and the end of the program, at each call that touches a file", **CLI),
 "C25": p(["cli::cli::prompt::*", "cli::subcommands::encrypt::*", "cli::subcommands::decrypt::*", "cli::subcommands::pack::*", "cli::subcommands::header::dump", "cli::subcommands::unpack", "cli::subcommands::unpack::*", "cli::global::parameters::*"] + SUBS, ["cli"],
          RUN + "every operation on existing outputs and headers, every kind of answer, forced and not, and equal paths", **CLI),
 "C26": p(["cli::cli::prompt::*", "cli::subcommands::encrypt::*", "cli::subcommands::decrypt::*", "cli::subcommands::pack::*", "cli::subcommands::unpack", "cli::subcommands::unpack::*"] + SUBS + PARAMS, ["cli"],
          RUN + "contents of each source, empty sources, and which of several sources is used, with a terminal for typed passwords", **CLI),
 "C16": p(["tools::hash::*", "tools::hasher::*"], ["tools"], GEN + "contents, chunkings, positions, faults"),
 "C17": p([PROT] + HASH + ["corecrypto::header::Keyslot::*", HEAD], ["core"], GEN + "every identifier, keys and salts; identifiers outside the known ones"),
 "C18": p([PRIM, PROT, HEAD, CIPH, KEY, "corecrypto::stream::*initialize", "tools::encrypt::*", "tools::key::add::*", "tools::key::change::*"] + TKEY, ["core", "tools"], GEN + "many draws of each kind must be of full length, all different and vary in every bit",
          beyond=["that two successive draws differ (the contract says each is drawn from the generator for this use; independence of draws is the generator's)"]),
 "C19": p([PROT, "corecrypto::key::generate_passphrase"], ["core"], GEN + "numbers of words from negative to large; over many draws every part of the list is hit"),
 "C20": p([PROT], ["core"], GEN + "formats and alternate formats of secrets of several types; a recording type shows that it is wiped exactly once, on every way of being dropped",
          assume=["the language runs Drop::drop when a value goes out of scope, and zeroize overwrites the memory of the value it is called on; what was moved or reallocated before is out of reach"]),
 "C28": p(["tools::utils::*"], ["tools"], GEN + "every byte, seeded strings"),
 "C29": p([PROT, CIPH, KEY, HEAD, "tools::decrypt::*"], ["core", "tools"], GEN + "contents, flips, cuts, wrong keys"),
}
NA = {}
