"""What each property consists of: the contracts (per layer) whose proof decides it."""
import importlib, functools

TRUSTED = ['clang-18 front end and mem2reg (C to LLVM IR), -O0 semantics, LP64 x86-64',
           'the VC generator in /verif/engine (symbolic execution of the IR against the contracts)',
           'z3 (unsat answers)',
           'contracts of the C library functions in /verif/specs/stdio.py']
ASSUMPTIONS = ['an error callback registered by the application does not touch the memory and the files of the library (the built-in diagnostics are proved not to: error layer of C07, C17, C18, C19)',
               'memory is typed: an object is not read with a different access width than it was written with',
               'out parameters do not alias other objects; heap pointers point to the start of objects',
               'termination is not proved; stack is unlimited']

WF = ['the tree is well formed: parent pointers are consistent, a data chunk has a buffer of its size, array lengths are those of the arrays (an array with elements is not NULL), groups have the group struct that belongs to their ID, no chunk occurs twice',
      'the built-in registry tables are not modified at run time and application handlers keep the interface contract']

def factory(key):
    """'module:function' or 'module:function@big' (big-endian configuration of the same sources)"""
    k, _, cfg = key.partition('@')
    m, f = k.split(':')
    mk = getattr(importlib.import_module(m), f)
    def make():
        L = mk()
        if cfg == 'big': L.big = 1
        return L
    return make

PROPS = {}
def prop(id, roots, **kw): PROPS[id] = dict(roots=roots, **kw)

R = [f'IFF_{d}{n}' for n in ('UByte', 'UWord', 'Word', 'ULong', 'Long', 'Id') for d in ('read', 'write')]
prop('C01', [('codec:codec_layer', R), ('codec:codec_layer@big', R)], big={'codec:codec_layer@big': 1})
prop('C02', [('codec:field_layer', [f'{x}Field' for x in R] + ['IFF_deriveSuccess'])])
prop('C08', [('check:check_layer', ['IFF_check', 'IFF_checkChunk', 'IFF_checkForm', 'IFF_checkCAT', 'IFF_checkList', 'IFF_checkProp', 'IFF_checkRawChunk'])], assumptions=WF)
prop('C09', [('ids:id_layer', ['IFF_checkId', 'IFF_checkFormType', 'IFF_idToString'])])
prop('C10', [('cmp:cmp_layer', ['IFF_compare', 'IFF_compareChunk', 'IFF_compareGroup', 'IFF_compareForm', 'IFF_compareCAT', 'IFF_compareList', 'IFF_compareProp', 'IFF_compareRawChunk'])], assumptions=WF)
prop('C13', [('lookup:lookup_layer', ['IFF_getChunkFromForm', 'IFF_getDataChunkFromForm', 'IFF_getChunkFromProp', 'IFF_getPropFromList'])], assumptions=WF)
prop('C14', [('lookup:lookup_layer', ['IFF_getDataChunkFromForm', 'IFF_getChunkFromProp']), ('lookup:all_layer', ['IFF_getChunksFromForm'])], assumptions=WF)
SIZES = ['sizes stay below 2 GiB', 'parent pointers form a finite chain and members point back to their group', 'growing a member array does not fail (known finding F5)']
prop('C11', [('build:build_layer', ['IFF_incrementChunkSize', 'IFF_attachToGroup', 'IFF_addToGroup', 'IFF_addToForm', 'IFF_addToCAT', 'IFF_addToList', 'IFF_addToProp', 'IFF_addPropToList', 'IFF_updateChunkSizes',
                                    'IFF_updateGroupChunkSizes', 'IFF_updateFormChunkSizes', 'IFF_updateCATChunkSizes', 'IFF_updatePropChunkSizes', 'IFF_updateListChunkSizes'])], assumptions=SIZES)
prop('C21', [('build:build_layer', ['IFF_addToCATAndUpdateContentsType', 'IFF_addToListAndUpdateContentsType', 'IFF_addToCAT', 'IFF_addToList'])], assumptions=SIZES)
prop('C23', [('build:create_layer', None)], assumptions=['the buffer of IFF_setTextData can be allocated (known finding F5)'])
prop('C12', [('search:search_layer', ['IFF_searchForms', 'IFF_searchFormsFromArray', 'IFF_mergeFormArray'])],
     assumptions=WF + ['fewer than 2^29 matching forms', 'the tree lies below every object allocated by the search', 'the result arrays can be allocated (known finding F5)'])
prop('C16', [('free:free_layer', ['IFF_free', 'IFF_freeChunk', 'IFF_freeGroup', 'IFF_freeRawChunk'] + [f'IFF_free{k}' for k in ('Form', 'CAT', 'List', 'Prop')])], assumptions=WF)
NA = {}
ERR = ('error:error_layer', ['IFF_error', 'IFF_errorId', 'IFF_readError', 'IFF_writeError'])      # what the other layers assume of the diagnostics
_k = ('Form', 'CAT', 'List', 'Prop')
prop('C15', [('reg:reg_layer', ['IFF_findChunkType']), ('check:check_layer', ['IFF_findChunkType']),
             ('reg:dispatch_layer', [f'IFF_{o}Chunk' for o in ('check', 'free', 'print', 'write', 'compare')] + [f'IFF_{o}{k}' for o in ('check', 'free', 'print', 'write', 'compare') for k in _k] +
              ['IFF_check', 'IFF_free', 'IFF_print', 'IFF_compare', 'IFF_writeFd'])], assumptions=WF + ['registry tables are strictly sorted and non-NULL when not empty, and do not change while an operation runs'])

BIG = ['files are smaller than 2 GiB']
prop('C03', [('write:write_layer', ['IFF_writeChunk', 'IFF_writeFd', 'IFF_writeRawChunk', 'IFF_writeZeroFillerBytes', 'IFF_writePaddingByte'] + [f'IFF_write{k}' for k in _k]),
             ('check:check_layer', ['IFF_findChunkType'])], assumptions=WF + SIZES[:1])
_r = ['IFF_readFd', 'IFF_readChunk', 'IFF_readRawChunk', 'IFF_skipUnknownBytes', 'IFF_readPaddingByte'] + [f'IFF_read{k}' for k in _k]
prop('C04', [('read:read_layer', _r), ('check:check_layer', ['IFF_findChunkType'])], assumptions=BIG + SIZES[2:])
prop('C05', [('read:read_layer', _r), ('check:check_layer', ['IFF_findChunkType'])], assumptions=BIG + SIZES[2:])
prop('C07', [('mem:mem_layer', _r), ('mem:free_mem_layer', ['IFF_free', 'IFF_freeChunk', 'IFF_freeGroup', 'IFF_freeRawChunk'] + [f'IFF_free{k}' for k in _k]), ('check:check_layer', ['IFF_findChunkType']), ERR],
     assumptions=BIG + SIZES[2:] + ['a read registry table entry is initialised (they are constants)', 'fwrite, fread and the error output do not touch other memory'])
_w = ['IFF_writeChunk', 'IFF_writeFd', 'IFF_writeRawChunk', 'IFF_writeZeroFillerBytes', 'IFF_writePaddingByte'] + [f'IFF_write{k}' for k in _k]
prop('C06', [('roundtrip:round_layer', None), ('write:write_layer', _w), ('read:read_layer', _r), ('check:check_layer', ['IFF_check', 'IFF_checkChunk', 'IFF_findChunkType']), ('cmp:cmp_layer', ['IFF_compare', 'IFF_compareChunk']), ('iofault:file_layer', ['IFF_read', 'IFF_readFile', 'IFF_write', 'IFF_writeFile'])],
     assumptions=WF + BIG + SIZES + ['a file that was written holds the bytes the stream accepted', 'reading meets no I/O error and memory can be allocated'])
_io = [f'IFF_{d}{x}{f}' for x in ('UByte', 'UWord', 'Word', 'ULong', 'Long', 'Id') for d in ('read', 'write') for f in ('', 'Field')] + [f'IFF_{d}{k}' for d in ('read', 'write', 'free') for k in _k + ('RawChunk',)]
IOA = ['application handlers satisfy the contract proved for the built-in ones: no swallowed failure, no stream closed, a byte count that is not negative', 'chunk sizes are not negative']
prop('C17', [('iofault:fault_layer', _io + ['IFF_readFile', 'IFF_read', 'IFF_writeFile', 'IFF_write', 'IFF_readChunk', 'IFF_writeChunk']), ERR], assumptions=IOA)
prop('C22', [('iofault:file_layer', _io + ['IFF_readFile', 'IFF_read', 'IFF_writeFile', 'IFF_write', 'IFF_readChunk', 'IFF_writeChunk'])], assumptions=IOA)

prop('C20', [('print:print_layer', ['IFF_print', 'IFF_printChunk', 'IFF_printId', 'IFF_printGroupSubChunks', 'IFF_printRawChunk'] + [f'IFF_print{k}' for k in _k]), ('check:check_layer', ['IFF_findChunkType'])],
     assumptions=WF + ['the standard output accepts every byte', 'the wording of the labels is that of the current tree'])

TOOL = ['trees that were read are released as a whole by IFF_free (proved block by block in the free layer)']
_tool = [('free:free_layer', ['IFF_free']), ('check:check_layer', ['IFF_check']), ERR]
GETOPT = ['getopt_long/getopt return the options of the table they are given, then -1, with optind between 1 and argc (assumed contract)']
prop('C18', [('tools:join_layer', ['IFF_join']), ('mains:joinmain_layer', ['iffjoin/main.c:main']), ('build:build_layer', ['IFF_addToCATAndUpdateContentsType']), ('build:create_layer', ['IFF_createEmptyCAT']), ('iofault:fault_layer', ['IFF_readFile', 'IFF_write'])] + _tool, assumptions=WF + SIZES + TOOL + GETOPT)
prop('C19', [('tools:pp_layer', ['IFF_prettyPrint']), ('mains:ppmain_layer', ['iffpp/main.c:main']), ('iofault:fault_layer', ['IFF_read'])] + _tool, assumptions=WF + TOOL + GETOPT)
