// Takes requests on the standard input and gives answers on the standard output, as main.rs does, with the library
// and its bindings in WebAssembly. The bindings are called the way the glue code that wasm-bindgen generates does.
import fs from 'node:fs'
import { randomFillSync } from 'node:crypto'

const module = new WebAssembly.Module(fs.readFileSync(process.argv[2]))
let x, bindings, objects

const view = (p, n) => new Uint8Array(x.memory.buffer, p >>> 0, n >>> 0)
const text = (p, n) => Buffer.from(view(p, n)).toString('utf8')

function start() {
	objects = [undefined]
	const imports = {}
	for (const { module: m, name, kind } of WebAssembly.Module.imports(module)) {
		if (kind != 'function') throw new Error(`unknown import ${name}`)
		imports[m] ??= {}
		imports[m][name] = (...a) => {
			if (name == 'random') randomFillSync(view(a[0], a[1]))
			else if (name.startsWith('__wbindgen_string_new') || name.startsWith('__wbindgen_cast')) return objects.push(text(a[0], a[1])) - 1
			else if (name.startsWith('__wbindgen_throw')) throw new Error(text(a[0], a[1]))
			else throw new Error(`unexpected call of ${name}`)
		}
	}
	x = new WebAssembly.Instance(module, { ...imports }).exports
	x.main?.()
	bindings = undefined
}

function library(request) {
	const n = request.length
	const p = x.ov_alloc(n) >>> 0
	view(p, n).set(request)
	const out = x.ov_alloc(8) >>> 0
	x.ov_run(p, n, out)
	const [r, k] = new Uint32Array(x.memory.buffer, out, 2)
	const answer = Buffer.from(view(r, k))
	x.ov_free(r, k)
	x.ov_free(out, 8)
	x.ov_free(p, n)
	return answer
}

function binding(file) {
	bindings ??= x.oggtoogg_new_with_defaults()
	const n = file.length
	const p = x.__wbindgen_malloc(n, 1) >>> 0
	view(p, n).set(file)
	const out = x.__wbindgen_malloc(16, 4) >>> 0
	x.oggtoogg_remux(out, bindings, p, n)
	const [r, k, error, failed] = new Uint32Array(x.memory.buffer, out, 4)
	x.__wbindgen_free(out, 16, 4)
	if (failed) {
		const e = objects[error]
		objects = [undefined]
		return Buffer.concat([Buffer.from([1]), Buffer.from(e)])
	}
	const answer = Buffer.concat([Buffer.from([0]), view(r, k)])
	x.__wbindgen_free(r, k, 1)
	return answer
}

function read(n) {
	const d = Buffer.alloc(n)
	for (let i = 0; i < n; ) {
		let k
		try {
			k = fs.readSync(0, d, i, n - i)
		} catch (e) {
			if (e.code == 'EAGAIN') continue
			throw e
		}
		if (k == 0) {
			if (i == 0) process.exit(0)
			throw new Error('incomplete request')
		}
		i += k
	}
	return d
}

function write(d) {
	for (let i = 0; i < d.length; ) i += fs.writeSync(1, d, i)
}

start()
for (;;) {
	const request = read(read(4).readUInt32LE())
	let answer
	try {
		answer = request[0] == 2 ? binding(request.subarray(10)) : library(request)
	} catch (e) {
		const kind = e instanceof WebAssembly.RuntimeError || e instanceof RangeError ? 2 : 3
		answer = Buffer.concat([Buffer.from([kind]), Buffer.from(String(e.message))])
		start()
	}
	// Memory never shrinks
	if (x.memory.buffer.byteLength > 400e6) start()
	const n = Buffer.alloc(4)
	n.writeUInt32LE(answer.length)
	write(n)
	write(answer)
}
