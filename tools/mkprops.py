#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
C='crates/volaris-crypto/src/'; T='crates/volaris-tools/src/'; L='crates/volaris-cli/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))

p('C01','Encrypt then decrypt returns the original bytes',
 'Whatever is encrypted with a key can be decrypted with that same key, and the output is byte for byte the original input: for every content (the empty one and exact multiples of the block size included), every algorithm, the supported header versions and key-hashing algorithms, and with the header attached or stored separately. The result does not depend on how many bytes the reader returns or the writer accepts per call. Encryption and decryption report success whenever the reader, the writer and the random source did not fail.',
 ['inputs','configurations','schedules'],'every plaintext, key, algorithm, header version V4/V5 (V4 with its one key-hashing algorithm), attached or detached header, and every sequence of short reads and short writes',
 'The tests encrypt two fixed short strings with in-memory cursors that never read or write short; block boundaries and chunkings are never reached.',
 [T+'encrypt.rs',T+'decrypt.rs',C+'stream.rs',C+'header.rs',C+'key.rs'],
 [('encrypt::execute',T+'encrypt.rs'),('decrypt::execute',T+'decrypt.rs'),('EncryptionStreams::encrypt_file',C+'stream.rs'),('DecryptionStreams::decrypt_file',C+'stream.rs')],
 observe=['bytes in the writer after encrypt / decrypt'])
p('C02','Decryption accepts only authentic ciphertext',
 'Decryption of a stream reports success only if the encrypted body is exactly what encrypting the returned plaintext under that master key, nonce and authenticated header produces; flipping, dropping, truncating, duplicating, reordering or appending bytes of the body, or changing the authenticated part of the header, makes it fail. Even when it fails, every byte it has already written is a prefix of the genuine plaintext. No unauthenticated byte is ever written to the output.',
 ['inputs','fault_sequences'],'every body, header, key and every error or short read of the reader and writer at any point',
 'The tests only decrypt intact ciphertexts; there is no negative test at all, and the guarantee is over all possible modified ciphertexts.',
 [C+'stream.rs',T+'decrypt.rs',C+'cipher.rs'],
 [('DecryptionStreams::decrypt_file',C+'stream.rs'),('decrypt::execute',T+'decrypt.rs')],observe=['result and writer content of decrypt'])
p('C03','The encrypted stream format is fixed and input-chunking independent',
 'The encrypted body is a function of key, nonce, associated data and content alone: the content is cut into blocks of exactly 1 MiB, each sealed in order with the selected algorithm under the LE31 STREAM construction and the whole associated data, and the last block (shorter than 1 MiB, possibly empty) is sealed as the final one. Every input byte is consumed exactly once and every produced byte is written exactly once, in order. A stream can only be set up with a nonce of exactly the length the algorithm needs; encrypting rejects any other.',
 ['inputs','schedules'],'every content length, key, nonce, associated data, algorithm and reader/writer chunking',
 'Two short fixed vectors pin the format for one block of one algorithm; the block structure, the other algorithms and the end-of-input logic are not exercised.',
 [C+'stream.rs',C+'primitives.rs'],
 [('EncryptionStreams::encrypt_file',C+'stream.rs'),('EncryptionStreams::initialize',C+'stream.rs'),('BLOCK_SIZE',C+'primitives.rs')])
p('C04','Header encoding and decoding are inverse and fixed-size',
 'Serializing any well-formed header of a writable version and reading it back gives the same version, algorithm, mode, nonce, salt and keyslots (order and content), and consumes exactly the advertised header size: 64 bytes up to V3, 128 for V4, 416 for V5. The byte layout and the identifying tags are those of the published format, so files written earlier stay readable. Writing a header emits all of its bytes even if the writer takes them piecewise.',
 ['inputs','configurations'],'every header value with 0 to 4 keyslots, every algorithm, mode and key-hashing algorithm',
 'Only single-keyslot XChaCha stream headers appear in the tests, compared against fixed byte strings.',
 [C+'header.rs'],[('Header::serialize',C+'header.rs'),('Header::deserialize',C+'header.rs'),('Header::get_size',C+'header.rs'),('Header::write',C+'header.rs')])
p('C05','Reading a header is total and strict',
 'Reading a header from any byte sequence whatsoever, of any length, either fails cleanly or returns a header that is well formed (nonce lengths matching its algorithm and mode, at most four keyslots, only known key-hashing identifiers); it never panics. Unknown version, algorithm, mode or keyslot identifiers and truncated input are rejected. On success the reader has advanced by exactly the header size and nothing else was consumed or modified.',
 ['inputs'],'every byte sequence',
 'The tests feed only well-formed headers; malformed input is never tried.',
 [C+'header.rs'],[('Header::deserialize',C+'header.rs')])
p('C06','Both sides authenticate the same header bytes',
 'The associated data computed from a header when encrypting equals the associated data recovered from the stored bytes when decrypting, for every version that can be written. For V5 it is the first 32 header bytes (tags, nonce, padding) and never depends on the keyslots; for V4 it is everything except the encrypted master key and its nonce; for V3 the whole header; earlier versions have none.',
 ['inputs','configurations'],'every header value / header byte string',
 'Agreement is only implied for the two fixed vectors; a change made consistently on both sides or only for other algorithms is invisible.',
 [C+'header.rs'],[('Header::create_aad',C+'header.rs'),('Header::deserialize',C+'header.rs')])
p('C07','A key unlocks the master key exactly when a keyslot was sealed with it',
 'Given a header, the supplied key yields the master key if and only if some keyslot opens under the hash of that key with that slot\'s salt and hashing algorithm, whichever of the slots it is; the result is the master key sealed in the first such slot. A key that opens no slot is reported as an error. Headers before V4 derive the key directly from the header salt with the parameters of their version.',
 ['inputs','configurations'],'every header (1..4 keyslots, any algorithm) and every key',
 'The tests use one keyslot and the right key; no test has a second slot, a wrong key, or a legacy header.',
 [C+'key.rs',T+'key.rs',C+'cipher.rs'],[('decrypt_master_key',C+'key.rs'),('decrypt_v5_master_key_with_index',T+'key.rs'),('vec_to_arr',C+'key.rs')])
p('C08','Adding a key keeps everything else and makes the new key work',
 'After a key is added successfully, the file has one more keyslot, which opens under the new key and holds the same master key; all previous keyslots, the tags, the nonce and every byte after the header are unchanged. If the current key is wrong, four keyslots are already in use or the version has no keyslot table, it fails and the file is unmodified.',
 ['inputs','histories'],'every file with a header, every key pair, every reachable sequence of key operations',
 'There are no tests for key manipulation.',
 [T+'key/add.rs',T+'key.rs',C+'header.rs'],[('key::add::execute',T+'key/add.rs'),('encrypt_master_key',T+'key.rs')],observe=['bytes of the handle'])
p('C09','Changing a key replaces only its own keyslot',
 'After a key is changed successfully, the keyslot that opened under the old key holds the same master key sealed under the new key with a fresh salt and nonce; the other keyslots, the tags, the nonce and every byte after the header are unchanged. If the old key is wrong or the version has no keyslot table, it fails and the file is unmodified.',
 ['inputs','histories'],'every file with a header, every key pair, every reachable sequence of key operations',
 'There are no tests for key manipulation.',
 [T+'key/change.rs',T+'key.rs',C+'header.rs'],[('key::change::execute',T+'key/change.rs'),('encrypt_master_key',T+'key.rs')],observe=['bytes of the handle'])
p('C10','Deleting a key removes only its own keyslot',
 'After a key is deleted successfully, exactly the keyslot that opened under it is gone; the other keyslots keep their content and order, and the tags, the nonce and every byte after the header are unchanged. If the key is wrong or the version has no keyslot table, it fails and the file is unmodified.',
 ['inputs','histories'],'every file with a header, every key, every reachable sequence of key operations',
 'There are no tests for key manipulation.',
 [T+'key/delete.rs',T+'key.rs',C+'header.rs'],[('key::delete::execute',T+'key/delete.rs')],observe=['bytes of the handle'])
p('C11','Verifying a key answers truthfully and changes nothing',
 'Verification succeeds if and only if the key opens one of the file\'s keyslots, fails with an error otherwise (wrong key, invalid header, version without a keyslot table), and never modifies the file.',
 ['inputs'],'every file and every key',
 'There are no tests for key manipulation.',
 [T+'key/verify.rs',T+'key.rs'],[('key::verify::execute',T+'key/verify.rs')])
p('C12','Header dump, strip and restore are lossless',
 'Dumping a header writes exactly the header bytes; stripping zeroes exactly the header region and leaves every other byte alone; restoring a dumped header onto the stripped file gives back the original file. Restoring refuses a target whose header region is not entirely present and zero, and then leaves it unmodified. Stripping or dumping something that does not start with a valid header fails without modifying it.',
 ['inputs','schedules'],'every file, every header, every reader chunking',
 'There are no tests for header manipulation.',
 [T+'header/dump.rs',T+'header/strip.rs',T+'header/restore.rs',C+'header.rs'],[('header::dump::execute',T+'header/dump.rs'),('header::strip::execute',T+'header/strip.rs'),('header::restore::execute',T+'header/restore.rs')])
p('C13','Overwriting covers the whole region on every pass',
 'Overwriting a region of a given length first writes, on each requested pass, exactly that many freshly drawn random bytes from the start, flushes, and finally writes exactly that many zero bytes from the start and flushes. Bytes beyond the region are untouched. Any failing seek, write or flush makes the whole operation fail.',
 ['inputs','fault_sequences'],'every length (0, block multiples, remainders), every number of passes, every failure point',
 'The tests look at the final zeroes only, so passes that write nothing or too little go unnoticed.',
 [T+'overwrite.rs'],[('overwrite::execute',T+'overwrite.rs')])
p('C14','Erasing a file overwrites its content before removing it',
 'Erasing opens the file without discarding its content, overwrites the full length it has with the requested number of passes, and only then removes it. If opening, measuring or overwriting fails, the error is reported and the file is not removed.',
 ['inputs','fault_sequences'],'every file length, every number of passes, every failing storage operation',
 'The tests check only that the file is gone afterwards.',
 [T+'erase.rs',T+'storage.rs',T+'overwrite.rs'],[('erase::execute',T+'erase.rs'),('update_file',T+'storage.rs')])
p('C15','Erasing a directory erases every file and removes nothing on failure',
 'Erasing a directory securely erases each regular file below it with the requested passes, and removes the directory tree only if every one of those succeeded. It refuses anything that is not a directory, and never touches a file outside of the tree.',
 ['inputs','fault_sequences','schedules'],'every directory tree, every failing file, every thread schedule',
 'One test with an in-memory storage whose erasures always succeed.',
 [T+'erase_dir.rs',T+'erase.rs',T+'storage.rs'],[('erase_dir::execute',T+'erase_dir.rs')])
p('C16','Hashing covers the whole input',
 'The reported hash is the lowercase hexadecimal BLAKE3 digest of the complete content from its start, whatever the reader\'s position was before and however it chunks its data. A read error is reported instead of a hash of part of the content.',
 ['inputs','schedules','fault_sequences'],'every content and length, every chunking of reads',
 'Two fixed inputs with in-memory cursors that never read short.',
 [T+'hash.rs',T+'hasher.rs'],[('hash::execute',T+'hash.rs'),('Blake3Hasher',T+'hasher.rs')])
p('C17','Key hashing uses the parameters its identifier stands for',
 'Each key-hashing identifier always means the same function: Argon2id v1/v2/v3 with (8 MiB, 8, 4), (256 MiB, 8, 4), (256 MiB, 10, 4) and BLAKE3-Balloon v4/v5 with (262144, 1, 1), (278528, 1, 1), applied to the whole key and the 16-byte salt to give 32 bytes. Any other identifier or a header version that does not belong to the function is an error. The identifier stored in a keyslot is the one of the function used.',
 ['inputs','configurations'],'every key, salt, identifier and version',
 'The tests fix the outcome for the two latest identifiers and one key; the other three identifiers and the error cases are never run.',
 [C+'key.rs',C+'header.rs'],[('argon2id_hash',C+'key.rs'),('balloon_hash',C+'key.rs'),('HashingAlgorithm::hash',C+'header.rs'),('Keyslot::serialize',C+'header.rs')])
p('C18','Salts, nonces and master keys are fresh and of full length',
 'Every salt (16 bytes), nonce (12/24/15 bytes, four fewer for streams) and master key (32 bytes) is filled completely from the random generator, and each encryption, key addition and key change draws new ones for itself rather than reusing a constant or stored one.',
 ['inputs','configurations'],'every algorithm, mode and operation',
 'The tests replace the generators with seeded ones, so the real ones are never run.',
 [C+'primitives.rs',T+'encrypt.rs',T+'key/add.rs',T+'key/change.rs'],[('gen_nonce',C+'primitives.rs'),('gen_salt',C+'primitives.rs'),('gen_master_key',C+'primitives.rs'),('get_nonce_len',C+'primitives.rs')])
p('C19','Generated passphrases are made of the requested number of listed words',
 'A generated passphrase consists of exactly the requested number of words, each drawn from the built-in list with every entry possible, joined by single dashes; a request for zero or fewer words gives an empty passphrase. Generation never panics.',
 ['inputs'],'every requested count and every outcome of the random generator',
 'There are no tests for it, and a fault that depends on one random outcome in thousands is not found by running it.',
 [C+'key.rs'],[('generate_passphrase',C+'key.rs')])
p('C20','Secrets are redacted in debug output and wiped when dropped',
 'A protected secret never shows its content when formatted for debugging, gives back exactly the value it was created with, and its memory is overwritten when it is dropped.',
 ['inputs'],'every secret value',
 'There are no tests for it; the dropped memory is not observable by a unit test.',
 [C+'protected.rs'],[('Protected::drop',C+'protected.rs'),('Protected::fmt',C+'protected.rs')])
p('C21','Packing then unpacking restores every file',
 'Unpacking an archive with the key it was packed with recreates, below the chosen directory, each packed directory and file under its own relative path with exactly its content, for every content and length and with or without compression.',
 ['inputs','configurations','schedules'],'every set of files, content, compression method and reader chunking',
 'The pack test compares one fixed archive and the unpack test is a stub that is ignored.',
 [T+'pack.rs',T+'unpack.rs'],[('pack::execute',T+'pack.rs'),('unpack::execute',T+'unpack.rs')])
p('C22','Unpacking never writes outside the chosen directory',
 'Whatever names an archive contains (absolute, with parent components, or otherwise malicious), unpacking creates files and directories only below the output directory; entries that would leave it are not extracted, and entries declined by the caller are not written.',
 ['inputs'],'every archive',
 'There is no unpack test.',
 [T+'unpack.rs'],[('unpack::execute',T+'unpack.rs')])
p('C23','The temporary plaintext archive is always erased',
 'Packing and unpacking go through a temporary plaintext archive; whether they succeed or fail at any step after creating it, its full length is overwritten before it is removed, and the outcome of the operation itself is what gets reported.',
 ['fault_sequences','inputs'],'every failing step (reading an input, archiving, encrypting, decrypting, opening the archive, extracting)',
 'The tests have no failing step.',
 [T+'pack.rs',T+'unpack.rs',T+'overwrite.rs'],[('pack::execute',T+'pack.rs'),('unpack::execute',T+'unpack.rs')])
p('C24','The command line destroys a source only when asked to and only after success',
 'Encrypting, decrypting and packing from the command line erase their source only if erasing was requested, and only after the output (and a separate header, if any) has been written and flushed successfully. On any error before that point the source still exists unmodified.',
 ['inputs','configurations','fault_sequences'],'every combination of options and every failing step',
 'The command line has no tests.',
 [L+'subcommands/encrypt.rs',L+'subcommands/decrypt.rs',L+'subcommands/pack.rs',L+'global/parameters.rs'],[('encrypt::stream_mode',L+'subcommands/encrypt.rs'),('decrypt::stream_mode',L+'subcommands/decrypt.rs'),('pack::execute',L+'subcommands/pack.rs'),('parameter_handler',L+'global/parameters.rs')])
p('C25','The command line never overwrites an existing output unasked',
 'Before encrypting, decrypting, packing or dumping a header onto an existing path, or extracting an archived entry over one, the user is asked unless forcing was requested, and declining (or not answering) leaves the existing file untouched: the operation ends, or for an archive that entry is skipped. Using the same path as input and output is refused before anything is opened.',
 ['inputs','configurations'],'every combination of paths, answers and options',
 'The command line has no tests.',
 [L+'cli/prompt.rs',L+'subcommands/encrypt.rs',L+'subcommands/decrypt.rs',L+'subcommands/pack.rs',L+'subcommands/unpack.rs',L+'subcommands/header.rs'],[('overwrite_check',L+'cli/prompt.rs'),('get_answer',L+'cli/prompt.rs')])
p('C26','The command line never uses an empty key',
 'The secret used for an operation is exactly the content of the selected source (keyfile, standard input, environment, generated passphrase or typed password), and an empty one is refused. A key file takes precedence over the environment, which takes precedence over generating a passphrase, which takes precedence over asking; sources the operation does not allow are never used.',
 ['inputs','configurations'],'every source and content',
 'The command line has no tests.',
 [L+'global/states.rs'],[('Key::get_secret',L+'global/states.rs'),('Key::init',L+'global/states.rs')])
p('C27','File storage opens, creates and removes only what it was asked to',
 'Creating a file fails if the path already exists and never alters what is there; opening for reading or for updating keeps the content; removing a file or a directory tree removes that path only; listing a directory covers everything below it, hidden entries included.',
 ['inputs','configurations'],'every state of the file system',
 'The tests use a handful of paths in one directory.',
 [T+'storage.rs'],[('FileStorage',T+'storage.rs')])
p('C28','Hexadecimal output is exact',
 'Encoding bytes as hexadecimal gives exactly two lowercase digits per byte, in order, for every byte string.',
 ['inputs'],'every byte string','There are no tests for it.',
 [T+'utils.rs'],[('hex_encode',T+'utils.rs')])
p('C29','Memory-mode files decrypt to exactly their content or fail',
 'A file in memory mode decrypts successfully if and only if its whole body is authentic under the unlocked master key, the stored nonce and the authenticated header, and then the complete content is written; otherwise nothing is written. The in-memory ciphers use the selected algorithm, the whole message and the whole associated data in both directions.',
 ['inputs'],'every body, header and key','The tests decrypt no memory-mode file.',
 [T+'decrypt.rs',C+'cipher.rs'],[('decrypt::execute',T+'decrypt.rs'),('Ciphers::decrypt',C+'cipher.rs'),('Ciphers::encrypt',C+'cipher.rs')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
