#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (committed; this script keeps it in one readable place)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
S="src/service.rs"; L="src/lib.rs"
p("C01","Serializing and re-reading a Compose document loses and changes nothing",
 "Any Compose document the library accepts, when serialized and read back, gives a value equal to the first one. Serializing that value a second time gives exactly the same text, so serialization is a fixpoint. This holds for whole documents and for every individual type that can be serialized (services, networks, volumes, builds, deploys, mounts, and so on).",
 ["inputs"],"every accepted document: every combination of attributes, syntaxes (short or long, list or map) and scalar spellings",
 "The tests round-trip one large hand-written file (test-full.yaml) plus a few values; attribute combinations, alternative syntaxes and boundary values are never round-tripped.",
 [L,S,"src/serde.rs","src/common/short_or_long.rs","src/service/deploy.rs","src/service/build.rs"],
 [("derived Serialize/Deserialize with skip_serializing_if",L),("serde helpers","src/serde.rs"),("short-form serialization","src/common/short_or_long.rs")],
 ["serde_yaml::from_str::<Compose>","serde_yaml::to_string"])
p("C02","A document is accepted exactly when well formed, and read faithfully",
 "A Compose document (or fragment) is accepted exactly when each of its attributes has one of the forms the Compose specification, as documented by this library, gives that attribute. Every attribute of an accepted document ends up, with its meaning unchanged, in the field that documents that attribute and in no other, and absent attributes get their documented defaults. Values the specification allows to be written several ways are the same value however they are written.",
 ["inputs"],"every document over the attributes and value forms of the Compose specification, including all alternative syntaxes",
 "Tests parse one full file and a few fragments; they do not check each attribute's accepted and rejected forms, nor that the value lands in the right field.",
 [L,S,"src/network.rs","src/volume.rs","src/config.rs","src/secret.rs","src/include.rs","src/service/deploy.rs","src/service/deploy/resources.rs","src/service/build.rs","src/service/volumes/mount.rs"],
 [("field attributes and renames","src/service.rs"),("custom visitors","src/serde.rs")],
 ["serde_yaml::from_str","public fields of every type"])
p("C03","Document order is preserved and output is deterministic",
 "Ordered contents of a document (services, networks, volumes, configs, secrets, lists, and key-value mappings, including extensions) come out of parsing and of serialization in the order they were written. Repeating the same parse or serialization always yields the same result, byte for byte. Sets keep first-occurrence order.",
 ["inputs","histories"],"every document, every permutation of its entries, every repetition of the operation, in one process or several",
 "Tests compare values with order-insensitive equality and run once; a hash-ordered container or an order-destroying step passes them.",
 [L,S,"src/common.rs","src/network.rs","src/volume.rs"],
 [("IndexMap and IndexSet containers","src/lib.rs"),("Resource deserialization","src/lib.rs")],["serde_yaml::to_string"])
p("C04","No key of a document is silently lost",
 "Each key of a mapping in a Compose document is either recognised, or is kept as an extension when it starts with \"x-\", or makes the document be rejected; it is never dropped. Extension keys are kept with their values at every place the specification allows them, and an extension key is accepted exactly when it starts with \"x-\".",
 ["inputs"],"every mapping type of the document tree, every key string, every position of the key",
 "Tests put one x-test key in some structures; they never try misspelt keys or extension keys throughout the tree, nor keys close to known ones.",
 [L,"src/common/keys.rs",S,"src/service/deploy.rs","src/service/volumes/mount.rs"],
 [("flattened Extensions and ExtensionKey","src/common/keys.rs"),("deny unknown","src/lib.rs")],["serde_yaml::from_str"])
p("C05","Mutually exclusive options and required choices hold in any key order",
 "Where the specification makes options mutually exclusive or requires one of several (config and secret sources, credential specs, network_mode versus networks, dockerfile versus dockerfile_inline, disabled healthchecks, mount types, local versus external resources), a document is accepted exactly when the choice is legal. Which choice is read, and whether the document is accepted, does not depend on the order of its keys.",
 ["inputs","histories"],"every subset of the competing keys (and their neighbours), every value form, every ordering of the keys",
 "Tests cover one or two orders of a few combinations; the custom visitors are order-sensitive state machines.",
 ["src/config.rs","src/secret.rs","src/service/credential_spec.rs","src/service/healthcheck.rs","src/service/build/dockerfile.rs",S,L,"src/service/volumes/mount.rs"],
 [("key-by-key visitors","src/service/healthcheck.rs"),("Resource visitor","src/lib.rs")],["serde_yaml::from_str"])
p("C06","Validated names accept exactly their documented grammar on every route",
 "Every validated string type (project and resource names, host names, map and extension keys, image names, tags and digests, user names, group names, absolute paths) accepts exactly the strings its documentation describes. The verdict and the stored text are the same by every route: constructors, parsing, conversions from borrowed and owned strings, and deserialization. The accepted text is kept unchanged.",
 ["inputs"],"every string (any length and characters) and every construction route",
 "Tests try a handful of strings per type and one route; grammars are about all strings.",
 ["src/name.rs","src/common/keys.rs","src/service/hostname.rs","src/service/image.rs","src/service/image/name.rs","src/service/image/tag.rs","src/service/image/digest.rs","src/service/user.rs",S],
 [("per-type validation","src/name.rs"),("impl_from_str! conversions","src/lib.rs")],["new","from_str","try_from","Deserialize"])
p("C07","Parsing and printing of string-represented types are inverse",
 "For each type with a string form (ports, port ranges, exposes, devices, device cgroup rules, short volumes, volumes_from, cpusets, users, ulimit names, ids, network and IPC modes, build contexts, caches, SSH authentications, images, MAC addresses, durations, byte values, platforms, and so on) a string is accepted exactly when it has the documented form and yields the parts it names. Printing a value gives a string which reads back as an equal value, and printing is canonical: equal values print alike (up to redundant path separators and the order of cache options, which are kept as written). Deserializing and serializing agree with parsing and printing.",
 ["inputs"],"every string over each type's grammar and every constructible value",
 "Tests (including a few property tests) sample one or two forms per type; optional parts, separators and values at boundaries combine freely.",
 ["src/service/ports.rs","src/service/expose.rs","src/service/device.rs","src/service/volumes.rs","src/service/cpuset.rs","src/service/user.rs","src/service/network_config.rs","src/service/build/context.rs","src/service/build/cache.rs","src/service/build/ssh_auth.rs","src/service/ulimit.rs","src/service/limit.rs",S],
 [("FromStr and Display pairs","throughout src/service")],["FromStr","Display","Serialize","Deserialize"])
p("C08","Short and long syntaxes are equivalent",
 "Wherever an attribute can be written in a short and a long syntax (ports, volumes, configs and secrets, depends_on, env_file, includes, builds, ulimits), converting short to long and back returns the original. A long form converts to the short one exactly when the short syntax can express everything it says, and then it means the same; otherwise it is returned unchanged. No conversion loses or invents settings.",
 ["inputs","histories"],"every short value and every long value, every chain of conversions",
 "Tests convert a few values each way; which option blocks the short form is a conjunction over all fields.",
 ["src/common/short_or_long.rs","src/service/ports.rs","src/service/volumes.rs","src/service/volumes/mount.rs","src/service/config_or_secret.rs",S,"src/service/env_file.rs","src/include.rs","src/service/build.rs","src/service/ulimit.rs","compose_spec_macros/src/as_short.rs"],
 [("AsShort derive and implementations","compose_spec_macros/src/as_short.rs"),("into_short / into_long","src/service/volumes.rs")],["into_long","into_short","as_short"])
p("C09","Editing an image reference always leaves a coherent image reference",
 "After any sequence of edits of an image reference (setting or removing registry, name, tag or digest, or building it from parts), its parts are those the edits asked for and its text is exactly their combination. Parsing its text gives an equal image with the same parts. An edit changes no other part.",
 ["histories","inputs"],"every sequence of edits from every starting image",
 "Tests make single edits on one or two images; the internal offsets must stay right through every sequence.",
 ["src/service/image.rs","src/service/image/name.rs","src/service/image/tag.rs","src/service/image/digest.rs"],
 [("cached offsets into one string","src/service/image.rs")],["registry","name","tag","digest","as_tag_or_digest","as_str"],
 [dict(name="registry_end / tag_start / digest_start",meaning="offsets of the parts in the image string",where="src/service/image.rs")])
p("C10","Cross-reference validation is exact",
 "Validating a document's networks, volumes, configs or secrets fails exactly when some service uses a resource that the top level must define and does not, and the error names a service and resource for which this is true. Validating everything fails exactly when one of the individual validations does. Whether validation passes does not depend on the order of services or uses.",
 ["inputs"],"every document: any number of services, uses in short or long syntax, and top-level definitions",
 "Tests have one passing and one failing document per kind.",
 [L,S,"src/service/volumes.rs","src/service/network_config.rs"],
 [("validate_all and validate_*","src/lib.rs")],["Compose::validate_all","Compose::validate_networks","Compose::validate_volumes","Compose::validate_configs","Compose::validate_secrets"])
p("C11","Merge keys and the reading routes agree",
 "Reading with merge keys enabled gives the same document as reading the hand-expanded YAML: explicit keys win, earlier merges win over later ones, and everything else is unaffected. Without the option, merge keys are not applied. Reading from a string, bytes, a reader or a YAML value gives the same result, with and without the option.",
 ["inputs","configurations"],"every document with merge keys at any mapping and nesting, every reading route and option setting",
 "One test merges one key in one document through one route.",
 ["src/options.rs",L],[("Options::from_yaml_*","src/options.rs")],["Options::from_yaml_str","Options::from_yaml_slice","Options::from_yaml_reader","Options::from_yaml_value"])
p("C12","Durations and byte quantities are read and printed exactly",
 "A duration or byte quantity string denotes exactly the sum or amount its digits and units say, in every unit and combination of units, and is rejected if malformed. One too large to represent is an error and never wraps, saturates or panics. Printing gives a string which denotes the same quantity.",
 ["inputs"],"all digit strings, unit suffixes and combinations, including values near the limits of the representation",
 "Tests sample small values; overflow, unit-carry and divisibility edges lie elsewhere.",
 ["src/duration.rs","src/service/byte_value.rs","src/serde/duration_option.rs","src/serde/duration_us_option.rs"],
 [("duration parse and display","src/duration.rs"),("ByteValue parse and display","src/service/byte_value.rs")],["duration fields","ByteValue::from_str","Display"])
p("C13","No input makes the library panic",
 "Reading any text, bytes or YAML value as a document or as any of its types, parsing any string as any string type, and serializing, validating, converting or querying any value so obtained, returns a value or an error. It never panics, overflows or fails to terminate.",
 ["inputs","histories"],"every byte string and YAML value, through every parsing entry point, followed by every query",
 "Tests feed mostly valid input.",
 [L,S,"src/duration.rs","src/service/image.rs","src/service/ports.rs","src/service/byte_value.rs","src/common.rs","src/options.rs"],
 [("Result-returning parsers","throughout src")],["all public parsing and query functions"])
p("C14","Equality, hashing, ordering and borrowing agree",
 "For every type, equal values hash alike and compare as equal in the ordering, ordering is total and transitive, and values that can be borrowed as strings compare, order and hash as those strings do. Looking up a key by string in a map or set finds it exactly when a stored key has that text. Comparing with a string type gives the same answer as comparing texts.",
 ["inputs"],"every pair and triple of values of each type",
 "Tests never compare hashes or orders; only hand-written impls can differ and each pair is a separate case.",
 ["src/service/image.rs","src/name.rs","src/common/keys.rs","src/service/hostname.rs","src/service/platform.rs","src/service/byte_value.rs","src/service/ports.rs"],
 [("hand-written and macro-made PartialEq/Ord/Hash/Borrow","src/lib.rs")],["PartialEq","Ord","Hash","Borrow"])
p("C15","Scalars, lists and maps convert without changing meaning",
 "A scalar value keeps its kind and exact content when it is read, printed, parsed back or converted to and from native types (only a floating-point number with an integral value may print as that integer), and a conversion to a narrower type succeeds exactly when the value fits. List and map forms of the same key-value data convert to each other with the same keys and values, and single items and one-element lists are both understood as written. String forms and native forms of the same number or boolean are interchangeable exactly where documented.",
 ["inputs"],"every scalar (all kinds and numeric boundaries) and every list or map of them",
 "Tests sample a couple of values of each kind.",
 ["src/common.rs","src/common/keys.rs","src/serde.rs"],
 [("Value, Number, StringOrNumber","src/common.rs"),("ListOrMap, ItemOrList","src/common.rs")],["TryFrom","FromStr","into_map","into_list"])
p("C16","Emptiness tests and defaults are exact",
 "A composite value reports that it is empty exactly when nothing in it is set (nested values in which nothing is set count as nothing). Documented defaults hold both for constructed values and for absent attributes. An unset attribute is not written, and setting any single attribute makes the value non-empty and visible in the output.",
 ["inputs"],"every subset of the fields of each composite type",
 "Tests check the empty case or one field; each is_empty is a conjunction over all fields.",
 ["src/service/deploy.rs","src/service/deploy/resources.rs","src/network.rs","src/volume.rs",S,"src/service/volumes/mount.rs","src/common.rs"],
 [("is_empty conjunctions","src/service/deploy.rs"),("skip_serializing_if","throughout src")],["is_empty","Default","serde_yaml::to_string"])
p("C17","Platforms read, print and compose exactly",
 "A platform string is accepted exactly when its operating system, architecture and variant are a documented combination, whatever construction order is used. The parsed platform has those three parts and prints as the same text. Conversions between platforms, operating systems and architectures keep or lose only what they say.",
 ["inputs"],"every operating system, architecture and variant combination and near-miss string",
 "Tests parse a few platforms.",
 ["src/service/platform.rs","compose_spec_macros/src/platforms.rs","compose_spec_macros/src/platforms/arch.rs","compose_spec_macros/src/platforms/os.rs"],
 [("platforms! macro","compose_spec_macros/src/platforms.rs")],["Platform::from_str","Display","os","arch"])
p("C18","Port range arithmetic is exact",
 "A port range accepts exactly start ≤ end and denotes exactly the ports between them: size, membership, iteration and conversion agree for every range. A short port maps each host port to the matching container port, requires equal sizes, and expands to exactly those pairs. This stays true for all boundary ports, including 0 and 65535.",
 ["inputs","histories"],"every pair of 16-bit ports and every combination of host and container ranges",
 "Tests check a few small ranges; off-by-one and overflow errors are at the edges.",
 ["src/service/ports.rs"],[("Range, ShortRanges","src/service/ports.rs")],["Range::new","Range::size","Range::into_iter","ShortRanges::new","ShortPort iteration"])
p("C19","Bounded numbers accept exactly their range",
 "Each bounded number (percentages, OOM score adjustments, block IO weights, CPU counts, limits, counts, priorities, modes) accepts exactly the values of its documented range, by construction, from text and from documents, and keeps them exactly. Values outside are errors and are never wrapped, truncated or rounded. The unlimited forms are read and written as such.",
 ["inputs"],"every value of the underlying numeric type, or every boundary of it",
 "Tests check none or one out-of-range value.",
 [S,"src/service/blkio_config.rs","src/service/limit.rs","src/service/deploy/resources.rs","src/service/deploy.rs","src/service/ulimit.rs"],
 [("range-checked constructors","src/service.rs")],["new","TryFrom","Deserialize","into_inner"])
p("C20","Paths that must be absolute stay absolute through every edit",
 "A path type that promises an absolute path (or a short volume host path) holds a path of that kind after every sequence of edits and conversions, and rejects construction from any other path by every route. Edits act as the same edits on an ordinary path do wherever they keep the promise, and where they do not the value is left unchanged. Host paths are told apart from volume names exactly as documented.",
 ["histories","inputs"],"every sequence of path edits over every kind of path fragment",
 "No test performs a sequence of edits.",
 [S,"src/service/volumes.rs"],[("path! wrapper macro","src/service.rs"),("HostPath","src/service/volumes.rs")],["AbsolutePath","HostPath","push","pop"])
p("C21","Values built from parts and what they say of themselves agree with documents",
 "A value built in code from its parts (by a constructor, a conversion from another type, or a default) equals the value read from the document or text which writes exactly those parts, and is written like it; what is not given is as if absent. Every question about a value (its kind, name, source, text, or one of its parts) is answered with the part it has, and with nothing for a kind or part it does not have; two questions about the same value never contradict each other.",
 ["inputs"],"every value of the types with constructors, conversions or accessors, over all combinations of kinds and optional parts",
 "Most of the conversions and accessors are called by no test, and the rest on a single value.",
 ["src/service/volumes/mount.rs","src/service/user.rs","src/common.rs","src/common/short_or_long.rs","src/network.rs","src/volume.rs","src/config.rs","src/secret.rs","src/service/build/cache.rs","src/service/build/context.rs","src/service/ports.rs","src/service/device.rs","src/service/healthcheck.rs"],[("From conversions","src/service/user.rs"),("accessors","src/service/volumes/mount.rs"),("Resource","src/common.rs")],["From","Mount::kind","Resource::name","Mount::source_to_string"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
