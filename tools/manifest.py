import json,subprocess,sys
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
FAULT={'C16','C24'}
T={
'C01':('generated streams and packets, reference decoder and lewton as oracles','event-by-event comparison with a reference decoder written from the specification, plus PCM differential against lewton; random, not exhaustive'),
'C02':('generated setup headers, independent header parser as oracle','every parsed field compared; random headers biased to extremes'),
'C03':('generated streams, strict Ogg and Vorbis validators as oracle','every output byte is judged by validators that share no code with the repository'),
'C04':('generated usage counts, optimal prefix code cost as oracle','exact cost equality with Huffman and package-merge per codebook; includes streams that need the 32-bit limit'),
'C05':('generated streams with padded, short and undecodable packets, reference decoder as oracle','exact sizes in bytes per packet'),
'C06':('generated streams, page invariants as oracle','exact page structure'),
'C07':('generated page layouts and positions, sample count model as oracle','exact positions of every output page'),
'C08':('generated comment headers and truncation at every byte, reference parser as oracle','byte-exact content for all five vendor actions and both comment actions'),
'C09':('generated files remuxed twice, idempotence as oracle','byte equality of first and second output'),
'C10':('generated chains and multiplexes, metamorphic relation to single streams','byte equality with streams processed alone'),
'C11':('generated chains, fresh processes, metamorphic relations','byte equality between processes with the same epoch'),
'C12':('corruption of every byte of generated and real files, differential','every single byte position of the files tried is corrupted in turn'),
'C13':('metamorphic: irregular and regular variants of generated streams','byte equality of the outputs of both variants'),
'C14':('single-rule violations and bit flips of generated streams, reference validator as oracle','accept/reject verdicts compared with a validator written from the specification'),
'C15':('structure-aware mutation fuzzing of generated and real files','no panic, bounded I/O, and well-formed output; overflow checks are on'),
'C16':('fault injection at every read, seek and write of generated and real files','every operation index of the runs tried gets a fault'),
'C17':('metamorphic: prefixes, fragmented I/O and instance reuse','byte equality with the undisturbed run'),
'C18':('generated mangler behaviours, packet writer model as oracle','exact sequence of hook calls and exact output bytes'),
'C19':('generated streams through the packet API, differential against the remuxer','packet and block size equality'),
'C20':('model-based operation sequences on bit readers and writers','bit-exact model; all widths'),
'C21':('exhaustive enumeration of all 2^32 words and generated numbers','reading and writing every 32-bit word is checked exhaustively'),
'C22':('differential between the std and no-std builds on generated operation sequences','identical transcripts'),
'C23':('generated command lines, differential against the library','bytes, status and messages of real process runs'),
'C24':('fault injection into the command-line program: file size limits, full devices, closed pipes, failing system calls, damaged inputs','every size limit and every system call of the runs tried'),
'C25':('differential between the bindings and the library on generated files','byte and error equality; the bindings run natively through a hook and, compiled to WebAssembly, in node'),
'C26':('differential between builds on generated and damaged files','byte and error equality of four builds: harness, debug assertions, no optional features, 32-bit WebAssembly in node; other platforms are not run'),
}
impl=set(subprocess.check_output(['/verif/.target/harness/release/ovverif','list'],text=True).split()[i] for i in [0]) if False else {l.split()[0] for l in subprocess.check_output(['/verif/.target/harness/release/ovverif','list'],text=True).splitlines()}
NA={}
m={'version':1,'setup_cmd':'./run.sh setup',
'hooks':{'guard':'optivorbis_verif','enable':'RUSTFLAGS="--cfg optivorbis_verif"','source_commits':[subprocess.check_output(['git','-C','/repo','log','--format=%H','--grep=^Hook'],text=True).strip()]},
'checks':[],'not_applicable':[]}
for p in props:
    i=p['id']
    if i in impl:
        m['checks'].append({'property':i,'quick_cmd':f'./run.sh {i}','thorough_cmd':f'./run.sh {i} thorough','evidence_file':f'evidence/{i}.json','technique':'property-based testing: '+T[i][0],'level':'fault_enumeration' if i in FAULT else 'exploration','level_note':T[i][1]+('' if 'random' in T[i][1] or 'exhaust' in T[i][1] else '; generated inputs, no proof')})
    else:
        m['not_applicable'].append({'property':i,'reason':NA.get(i,'the check is not built yet')})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False); open('/verif/MANIFEST.json','a').write('\n')
