"""writes /verif/properties.jsonl (kept as a script so that the long lines stay editable)"""
import json, os
P=[]
def p(id,title,st,over,q,why,files,mech):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over.split(),text=q),why_tests_cant=why,
      anchors=dict(files=['src/'+f for f in files.split()],mechanism=[dict(name=n,where=w) for n,w in mech])))
io='libiff/io.c'; L='libiff/'
p('C01','Primitive values are stored big-endian and read back exactly',
 'Every 8, 16 and 32 bit value (signed, unsigned, or a 4-character ID) is written as exactly its big-endian bytes, most significant byte first, and advances the file by exactly its size. Reading such bytes yields exactly the value that was written, for every value. If the bytes cannot be completely read or written the operation reports failure.',
 'inputs fault_sequences','all values of each width, all file contents and positions, and an I/O failure or end of file at any byte',
 'The tests only move a handful of values through the codec; sign and high-bit values and truncated reads are never tried.',
 L+'io.c '+L+'id.c',[('byte swapping readers and writers','src/libiff/io.c: IFF_readULong, IFF_writeULong and siblings')])
p('C02','A field is accessed only if it fits completely in its chunk',
 'Reading or writing a field of an application chunk moves the file only if the whole field lies within the declared size of the chunk; it then processes exactly that field big-endian and the count of processed bytes grows by exactly the field size. If the field does not fit, the file, the value and the count are untouched and the caller is told that the last field was reached. An I/O error is reported as failure and leaves the count unchanged.',
 'inputs fault_sequences','all chunk sizes (also smaller than the field), all processed counts from 0 up, all field widths and values, all file contents',
 'The extension tests use two chunk layouts; sizes below the field size and counts at the boundary are not enumerable by tests.',
 L+'field.c',[('fit test and byte accounting','src/libiff/field.c: fieldDoesNotFitInChunk, increaseBytesProcessed')])
p('C03','A written chunk is framed as ID, size, body, filler and pad byte',
 'Writing a chunk emits its 4-byte ID, its 4-byte big-endian size, its body (data bytes for a data chunk; for a group the group type followed by all members in order, shared properties of a list first), then zero bytes up to the declared size when the body is shorter, and one zero pad byte exactly when the size is odd. Success is reported only if every one of these bytes was accepted by the file.',
 'inputs fault_sequences','all chunk trees of the built-in types with non-negative sizes, including declared sizes larger than the body',
 'Tests compare a few fixed output files; filler, padding and nesting combinations are unbounded.',
 L+'chunk.c '+L+'io.c '+L+'rawchunk.c '+L+'group.c '+L+'list.c',[('writeChunkBody','src/libiff/chunk.c'),('zero filler and pad byte','src/libiff/io.c'),('group body','src/libiff/group.c, src/libiff/list.c')])
p('C04','Reading consumes exactly one framed chunk, or fails',
 'Reading a chunk consumes exactly the bytes of that chunk as framed in the file: header, the body of its declared size (bytes the handler did not understand are skipped), and the pad byte exactly when the size is odd, so that a following chunk is read from its own first byte. It fails, and returns nothing, when the header, body or pad byte is cut off by the end of the file or the size is negative.',
 'inputs','all byte sequences, all start positions and all sizes; extension chunk handlers may process any part of the body',
 'The tests read about a dozen well-formed or slightly broken files; alignment errors show only for particular size/nesting combinations.',
 L+'chunk.c '+L+'io.c '+L+'rawchunk.c '+L+'group.c '+L+'list.c',[('readChunkBody','src/libiff/chunk.c'),('skip and pad','src/libiff/io.c: IFF_skipUnknownBytes, IFF_readPaddingByte')])
p('C05','The tree that is read mirrors the file',
 'A successfully read chunk tree has, at every level, the ID, size, group type and data bytes found in the file, and its members in file order, each with the enclosing group as its parent. In a list the shared property chunks are kept, in file order, apart from the other members. Nothing in the file is dropped, duplicated or reordered.',
 'inputs','all byte sequences that parse, any nesting depth and any number of members',
 'Tests check a few fixed trees; the mirror relation is over all nestings and member counts.',
 L+'chunk.c '+L+'group.c '+L+'list.c '+L+'rawchunk.c',[('member attachment','src/libiff/group.c: IFF_attachToGroup, readGroupSubChunks'),('property separation','src/libiff/list.c: readListSubChunks')])
p('C06','Writing a valid tree and reading it back gives an equal tree',
 'For every chunk tree that the conformance check accepts, if writing it succeeds then reading the written bytes succeeds, consumes all of them, and yields a tree that compares equal to the original.',
 'inputs','all conforming chunk trees of the built-in types, any depth, width and data',
 'The round trip holds for the handful of trees in the tests; an asymmetry between writer and reader can hide in any untested size or nesting.',
 L+'chunk.c '+L+'io.c '+L+'group.c '+L+'list.c '+L+'rawchunk.c',[('writer and reader of each chunk type','src/libiff/{chunk,group,list,rawchunk,io}.c')])
p('C07','Reading arbitrary bytes never corrupts memory',
 'Reading any byte sequence with the default chunk types never accesses memory outside live allocated objects, never uses uninitialised or freed memory and never performs undefined arithmetic. When reading fails, everything allocated for the partial tree has been released exactly once; when it succeeds the result is a well-formed tree.',
 'inputs fault_sequences','all byte sequences, and failing allocation of any chunk or data buffer at any point',
 'Memory errors depend on hostile sizes and failure points which the fixed test files do not contain.',
 L+'chunk.c '+L+'group.c '+L+'list.c '+L+'rawchunk.c '+L+'io.c '+L+'field.c',[('allocation and failure paths','src/libiff/chunk.c: readChunkBody; src/libiff/rawchunk.c: IFF_createRawChunk')])
p('C08','The conformance check accepts exactly the conforming trees',
 'The check returns true exactly if the top-level chunk is a form, concatenation or list, every chunk ID and group type in the tree is legal, every group contains only the kinds of members it may contain (no property chunk in a form; only data chunks in a property chunk; only forms, lists and concatenations of the declared contents type in a concatenation or list), and every group size equals the size of its contents including padding.',
 'inputs','all chunk trees of the built-in types whose encoded size stays below 2 GiB',
 'Tests feed one example per violated rule; acceptance and rejection must be exact for all combinations and positions in the tree.',
 L+'chunk.c '+L+'group.c '+L+'form.c '+L+'cat.c '+L+'list.c '+L+'prop.c '+L+'id.c '+L+'iff.c',[('group checks','src/libiff/group.c: IFF_checkGroup, IFF_checkGroupSubChunks'),('membership rules','src/libiff/{form,cat,list,prop}.c')])
p('C09','Chunk IDs and form types are validated exactly',
 'An ID is accepted exactly if its four characters all lie between 0x20 and 0x7e and the first is not a space. A form type is accepted exactly if it is such an ID consisting only of upper case letters, digits and spaces and is neither a group ID (FORM, LIST, PROP, CAT), nor the wildcard type JJJJ, nor one of the reserved FOR1-FOR9, LIS1-LIS9 and CAT1-CAT9.',
 'inputs','all 2^32 IDs',
 'Only a few IDs are tried by tests; there are 2^32.',
 L+'id.c '+L+'form.c',[('IFF_checkId','src/libiff/id.c'),('IFF_checkFormType','src/libiff/form.c')])
p('C10','Comparison is exact structural equality',
 'Comparing two chunk trees returns true exactly if they have the same ID and size at every node, the same group types, the same number of members (and of shared properties in lists) with pairwise equal members in the same order, and the same data bytes. Neither tree is modified.',
 'inputs','all pairs of chunk trees of the built-in types',
 'Tests compare a few equal trees; a comparison that ignores one component is only exposed by a pair differing in just that component, anywhere in the tree.',
 L+'chunk.c '+L+'group.c '+L+'list.c '+L+'rawchunk.c',[('comparison of each chunk type','src/libiff/{chunk,group,form,cat,list,prop,rawchunk}.c')])
p('C11','Adding members and updating sizes keeps group sizes consistent',
 'Adding a member (or a shared property) to a group appends it after the existing ones, makes the group its parent and enlarges the size of the group by 8 bytes plus the padded size of the member, changing nothing else. Updating the sizes from a chunk recomputes the size of that group and of every enclosing group to 4 plus the padded encoded sizes of its members (shared properties included), and changes nothing else.',
 'inputs histories','all groups, members and member sizes below 2 GiB in total, all nesting depths, any sequence of additions',
 'Tests use few members with small sizes; parity and nesting interact over unbounded histories.',
 L+'group.c '+L+'form.c '+L+'cat.c '+L+'list.c '+L+'prop.c',[('IFF_addToGroup, IFF_incrementChunkSize, IFF_updateChunkSizes','src/libiff/group.c'),('IFF_addPropToList, IFF_updateListChunkSizes','src/libiff/list.c')])
p('C12','Form search returns the outermost matching forms in document order',
 'Searching a tree for form types returns exactly the forms whose type is one of those sought and that do not lie inside another matching form, each once, in document order, together with their exact number. Data chunks and shared property chunks yield nothing, the tree is not modified, and nothing but the returned array is left allocated.',
 'inputs','all trees and all lists of form types, including empty ones',
 'Tests search two small trees; order, nesting and multi-type queries are unbounded.',
 L+'group.c '+L+'form.c '+L+'cat.c '+L+'list.c',[('IFF_searchFormsFromArray','src/libiff/group.c'),('IFF_searchFormsInForm, IFF_mergeFormArray','src/libiff/form.c')])
p('C13','Property lookup honours the own chunk, then the nearest enclosing list',
 'Looking up a chunk by ID in a form returns the first direct member with that ID. If there is none it returns the first such member of the first shared property chunk for the type of the form in the nearest enclosing list whose property chunk for that type contains it, searching outwards through all enclosing lists, and nothing if there is none.',
 'inputs','all trees with any nesting of lists, concatenations and forms, all form types and chunk IDs',
 'Tests have one or two list levels; shadowing and fall-through combinations over arbitrary nesting are not sampled.',
 L+'form.c '+L+'list.c '+L+'prop.c',[('IFF_getChunkFromForm, searchProperty, searchList','src/libiff/form.c'),('IFF_getPropFromList','src/libiff/list.c')])
p('C14','Direct member lookup finds the first, or all, members in order',
 'Fetching a data chunk by ID from a form or property chunk returns its first direct member with that ID or nothing. Fetching all chunks with an ID returns precisely the direct members with that ID, in order and without duplicates, together with their exact number; the form is not modified.',
 'inputs','all forms with any number of members and all IDs',
 'Tests use forms with a few members; first/last/none/duplicate positions are unbounded.',
 L+'form.c '+L+'list.c '+L+'prop.c',[('IFF_getDataChunkFromForm, IFF_getChunksFromForm','src/libiff/form.c'),('IFF_getChunkFromProp','src/libiff/prop.c')])
p('C15','Every operation uses the chunk type the registry selects for that context',
 'The chunk type for a chunk is the first one registered for its ID along the chain of the form type it appears in, else along the chain of global chunk types, else the default. Creating, reading, writing, checking, freeing, printing and comparing a chunk all use the handlers of that one chunk type, where the context is the group type of the directly enclosing group (0 at top level), and a missing registry means the built-in one.',
 'inputs configurations','all registries (any number of form types, chain lengths, sorted tables), contexts and IDs',
 'Tests use two small registries; chain order, fall-back and context passing must hold for every registry.',
 L+'chunkregistry.c '+L+'defaultregistry.c '+L+'chunk.c '+L+'group.c '+L+'list.c '+L+'iff.c',[('IFF_findChunkType','src/libiff/chunkregistry.c'),('handler dispatch','src/libiff/chunk.c'),('built-in tables','src/libiff/defaultregistry.c')])
p('C16','Freeing a tree releases every block of it exactly once',
 'Freeing a chunk tree releases each chunk, each data buffer and each member array of that tree exactly once, touches nothing after it has been released, and releases nothing else.',
 'inputs','all well-formed trees of the built-in types',
 'Tests free a few trees without a leak or double-free oracle.',
 L+'chunk.c '+L+'group.c '+L+'list.c '+L+'rawchunk.c',[('IFF_freeChunk','src/libiff/chunk.c'),('IFF_freeGroup','src/libiff/group.c'),('IFF_freeList','src/libiff/list.c'),('IFF_freeRawChunk','src/libiff/rawchunk.c')])
p('C17','I/O failures are reported, never swallowed',
 'If any open, read or write operation that reading or writing an IFF file or stream needs fails, or the close that completes a written file, reading returns nothing and writing returns false. Writing returns true only if every byte was accepted, including when the file was closed or, without a file name, the standard output was flushed. (For a stream supplied by the caller, accepted means accepted by the stream, which the caller flushes or closes.)',
 'fault_sequences inputs','a failure at any I/O operation, for all trees and files',
 'No test injects an I/O failure.',
 L+'io.c '+L+'iff.c '+L+'chunk.c '+L+'group.c '+L+'list.c '+L+'rawchunk.c '+L+'field.c',[('status propagation','src/libiff/{io,field,chunk,group,list,rawchunk,iff}.c')])
p('C18','Joining files yields one concatenation of all inputs in order, or fails',
 'Joining IFF files writes one concatenation chunk whose members are the trees of all input files in the given order, with a consistent size and a contents type equal to the common group type of the inputs, or the wildcard JJJJ when they differ. If any input cannot be read or does not conform, or the output cannot be written, a non-zero status is returned and nothing is written for a bad input; everything allocated is released. The command joins exactly the files named on its command line, into the file given with -o or else the standard output, and exits with the status of the join.',
 'inputs fault_sequences','any number of input files of any content',
 'One join test with two inputs exists; order, mixed types, bad inputs at any position and output failures are not covered.',
 'iffjoin/join.c iffjoin/main.c '+L+'cat.c',[('IFF_join','src/iffjoin/join.c'),('main','src/iffjoin/main.c'),('contents type update','src/libiff/cat.c')])
p('C19','The pretty printer prints exactly the files it accepts',
 'The pretty printer returns success exactly if the input could be read and either conforms or checking was disabled, and prints the tree exactly then. In every case the tree it read is released exactly once, and unreadable input is reported with a non-zero status. The command prints the file it is given, or else the standard input, with checking disabled exactly if -c was given, and exits with that status.',
 'inputs configurations','all input files, with and without checking',
 'The pretty printer is not exercised by the test-suite.',
 'iffpp/pp.c iffpp/main.c',[('IFF_prettyPrint','src/iffpp/pp.c'),('main','src/iffpp/main.c')])
p('C20','Printing shows every byte and every member faithfully',
 'Printing a tree outputs, for every chunk in order, its ID, its decimal size and its contents: for text chunks the characters themselves, for other data chunks each byte as two hexadecimal digits separated by spaces with ten bytes per line, and for groups the group type, the shared properties of a list and all members, nested one indentation level deeper. Nothing is omitted, and the tree is not modified.',
 'inputs','all chunk trees of the built-in types and all indent levels',
 'No test looks at the printed output.',
 L+'chunk.c '+L+'rawchunk.c '+L+'group.c '+L+'list.c '+L+'id.c '+L+'util.c',[('printing of each chunk type','src/libiff/{chunk,rawchunk,group,list,id,util}.c')])
p('C21','The contents type of a concatenation summarises its members',
 'Starting from an empty concatenation or list and adding forms, lists and concatenations with contents type updating, the contents type always equals the group type of all members if they share one, and the wildcard JJJJ otherwise; adding any other kind of chunk leaves it unchanged. A concatenation built this way from such members satisfies the membership rules of the conformance check.',
 'histories inputs','all sequences of additions with all group types',
 'Tests add two or three members; the invariant is over all sequences (for instance differing types followed by equal ones).',
 L+'cat.c '+L+'list.c',[('IFF_addToCATAndUpdateContentsType','src/libiff/cat.c'),('IFF_addToListAndUpdateContentsType','src/libiff/list.c')])
p('C22','Files opened by the library are closed exactly once, and nothing else is',
 'Reading or writing by file name opens exactly the named file, in binary read or write mode, and closes it exactly once on every path, also on failure. Without a file name the standard input or output is used and left open, and a stream supplied by the caller is left open.',
 'inputs fault_sequences','all names, contents and failure points',
 'Handle leaks and double closes on failure paths are invisible to the tests.',
 L+'iff.c',[('IFF_readFile, IFF_writeFile, IFF_read, IFF_write','src/libiff/iff.c')])
p('C23','New chunks and groups start in a consistent state',
 'A newly created chunk has the requested ID and size and no parent; a newly created group also has the requested type and no members, and an empty group (form, list, concatenation, property chunk) created without an explicit size has size 4, concatenations and lists without explicit type have type JJJJ. A data chunk gets a buffer of its declared size, assigning data, text or copied bytes makes the chunk hold exactly those bytes, and creation returns nothing, leaking nothing, if memory cannot be obtained.',
 'inputs fault_sequences','all IDs, sizes, types, data and texts, with allocation failing at any point',
 'Tests create a few chunks and never fail an allocation.',
 L+'chunk.c '+L+'group.c '+L+'form.c '+L+'cat.c '+L+'list.c '+L+'prop.c '+L+'rawchunk.c',[('constructors','src/libiff/{chunk,group,form,cat,list,prop,rawchunk}.c'),('data assignment','src/libiff/rawchunk.c')])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['title'],len(x['title']))
