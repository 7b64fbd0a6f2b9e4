# Regenerates properties.jsonl (source of truth for property texts).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

p('C01', 'AMF3 variable-length integers are exact for every 29-bit value and history',
  'Every integer in the signed 29-bit range survives encoding to and decoding from the AMF3 variable-length integer form, the form being the shortest one and at most four bytes, and decoding consumes exactly the bytes encoding produced. Every integer outside the range is refused with OverflowError. The answer for one value does not depend on which values were encoded before it.',
  ['inputs', 'histories'], 'all integers (inside and around the 29-bit range), every earlier call',
  'The tests sample about twenty values in one order; off-by-one masks at the 7/14/21-bit boundaries, sign handling and cache poisoning between calls need all values and all pairs of calls.',
  ['pyamf/amf3.py'], [('encode_int / ENCODED_INT_CACHE', 'pyamf/amf3.py encode_int'), ('decode_int', 'pyamf/amf3.py decode_int')],
  ['pyamf.amf3.encode_int', 'pyamf.amf3.decode_int'])
p('C02', 'Typed stream reads and writes are exact inverses in every byte order',
  'For every supported width, signedness and byte order, a value the stream accepts is read back unchanged, with the documented number of bytes in the documented order on the wire. A value that does not fit is refused with OverflowError (a wrong type with TypeError) and leaves the stream unchanged. Reading from a stream that holds too few bytes raises IOError and does not move the position.',
  ['inputs', 'configurations'], 'all values of every width, both explicit byte orders and the native one, all short buffers',
  'Tests sample a few values per width; boundary values of 24-bit forms, sign extension and partial reads need every value and every buffer length.',
  ['pyamf/util/pure.py'], [('DataTypeMixIn', 'pyamf/util/pure.py')], ['BufferedByteStream.read_*/write_*'])
p('C03', 'A byte stream behaves as an in-memory file under any sequence of operations',
  'Under any sequence of write, read, seek, peek, truncate, append, consume, concatenation and length queries, the stream has the content, length and position an in-memory file would have. Peeking and appending never move the position, reading past the end raises IOError without side effect, and the end-of-file query is true exactly when nothing is left to read.',
  ['histories', 'inputs'], 'all sequences of stream operations up to a length, all arguments, all contents',
  'Tests run a few fixed sequences; length bookkeeping drifts only after particular mixes of operations.',
  ['pyamf/util/pure.py'], [('BytesIOProxy, BufferedByteStream', 'pyamf/util/pure.py')], ['BufferedByteStream'])
p('C04', 'AMF0 encoding and decoding is the identity on every supported value',
  'Encoding any supported value (None, booleans, numbers, byte and text strings, lists, tuples, dictionaries, mixed arrays, untyped and typed objects, nested to any shape) as AMF0 and decoding the bytes gives back an equal value of the documented type and consumes exactly the bytes produced. A value or key the format cannot carry is refused with an exception, never silently altered.',
  ['inputs'], 'all scalars, all strings incl. the 16-bit length boundary, container shapes up to a size',
  'Tests use a few dozen literals; the string-length boundary, surrogates, key types and nested shapes are a product space.',
  ['pyamf/amf0.py', 'pyamf/codec.py'], [('Encoder.write*', 'pyamf/amf0.py'), ('Decoder.read*', 'pyamf/amf0.py')], ['pyamf.encode', 'pyamf.decode'])
p('C05', 'AMF3 encoding and decoding is the identity on every supported value',
  'Encoding any supported value (None, undefined, booleans, integers, floats, byte and text strings, lists, dictionaries, mixed arrays, byte arrays, XML, untyped and typed objects, nested to any shape) as AMF3 and decoding the bytes gives back an equal value of the documented type and consumes exactly the bytes produced. Integers outside the 29-bit range travel as doubles of equal value. A value or key the format cannot carry is refused with an exception, never silently altered.',
  ['inputs'], 'all scalars, all strings, container shapes up to a size',
  'Tests use a few dozen literals; integer boundaries, mixed key sets, string lengths and nested shapes are a product space.',
  ['pyamf/amf3.py', 'pyamf/codec.py'], [('Encoder.write*', 'pyamf/amf3.py'), ('Decoder.read*', 'pyamf/amf3.py')], ['pyamf.encode', 'pyamf.decode'])
p('C06', 'AMF0 preserves the identity of shared and cyclic objects',
  'When the same object occurs several times in the values written to one AMF0 stream, including inside itself, decoding yields one object in exactly those places, and distinct objects stay distinct. The reference numbering used by the encoder and the decoder agrees after any mix of values, including those switched to AMF3 inside the stream.',
  ['inputs', 'histories'], 'all graphs up to a number of nodes and edges over every referenceable and non-referenceable kind of value',
  'Tests use one or two fixed shapes; a numbering mismatch shows only when a particular kind of value precedes a back reference.',
  ['pyamf/amf0.py', 'pyamf/codec.py'], [('Context.addObject/getObjectReference', 'pyamf/codec.py'), ('writeReference/readReference', 'pyamf/amf0.py')], ['pyamf.encode', 'pyamf.decode'],
  [('object table', 'objects seen so far, by index', 'pyamf/codec.py Context')])
p('C07', 'AMF3 object, string and class reference tables stay in step',
  'When the same object, string or class definition occurs several times in the values written to one AMF3 stream, including inside itself, decoding yields one object in exactly those places, equal strings, and objects of the right class; distinct objects stay distinct. The three reference tables of encoder and decoder agree after any mix of values.',
  ['inputs', 'histories'], 'all graphs up to a number of nodes and edges over every kind of value',
  'Tests use a few fixed shapes; a table mismatch shows only when a particular kind of value precedes a back reference.',
  ['pyamf/amf3.py', 'pyamf/codec.py'], [('Context.addString/addObject/addClass', 'pyamf/amf3.py'), ('IndexedCollection', 'pyamf/codec.py')], ['pyamf.encode', 'pyamf.decode'],
  [('objects/strings/classes tables', 'values seen so far, by index', 'pyamf/amf3.py Context')])
p('C08', 'The AMF0 decoder fails only in documented ways on arbitrary bytes',
  'Decoding arbitrary bytes as AMF0 either yields values or raises a decode error, an unknown-reference error or an end-of-data (IOError) error; it never fails with an internal error such as AttributeError, TypeError, KeyError or IndexError, never reads outside the input and never loops for ever.',
  ['inputs'], 'every byte sequence up to a length',
  'Tests feed a handful of malformed inputs; the space of malformed inputs is unbounded.',
  ['pyamf/amf0.py', 'pyamf/codec.py', 'pyamf/util/pure.py'], [('Decoder.readElement', 'pyamf/codec.py')], ['pyamf.decode'])
p('C09', 'The AMF3 decoder fails only in documented ways on arbitrary bytes',
  'Decoding arbitrary bytes as AMF3 either yields values or raises a decode error, an unknown-reference error or an end-of-data (IOError) error; in particular any reference to a string, object or class not seen before is refused, and never becomes a None value or an internal error such as AttributeError, TypeError, KeyError or IndexError. Decoding terminates and reads nothing outside the input.',
  ['inputs'], 'every byte sequence up to a length',
  'Tests feed a handful of malformed inputs; the space of malformed inputs is unbounded.',
  ['pyamf/amf3.py', 'pyamf/codec.py', 'pyamf/util/pure.py'], [('Decoder.readElement', 'pyamf/codec.py')], ['pyamf.decode'])
p('C10', 'Decoding does not depend on how the bytes arrive',
  'Splitting an encoded stream at any byte and feeding the decoder piece by piece yields the same values as decoding it whole. When a value is still incomplete the decoder reports end of data, restores its position to the start of that value, and continues correctly once the rest arrives.',
  ['inputs', 'fault_sequences'], 'every split point of every encoded value in the stated shapes',
  'Tests split one or two literals; a partly decoded value may leave traces (tables, position) only for particular shapes and split points.',
  ['pyamf/codec.py', 'pyamf/amf0.py', 'pyamf/amf3.py'], [('Decoder.send/next/__iter__', 'pyamf/codec.py'), ('readElement position restore', 'pyamf/codec.py')], ['pyamf.decode', 'Decoder.send', 'iteration'])
p('C11', 'Dates survive to the millisecond, whatever the timezone offset',
  'A date-time written as AMF0 or AMF3 is read back as the same instant to within AMF\'s millisecond resolution, for dates before and after 1970, and for every configured timezone offset, which is subtracted when encoding and added when decoding. A plain date decodes as midnight of that day, a time of day is refused, and the timestamp helpers are inverses of each other.',
  ['inputs', 'configurations'], 'every date-time in the stated year range and microsecond, every offset within a day',
  'Tests use a few dates, nearly all after 1970 with zero microseconds.',
  ['pyamf/util/__init__.py', 'pyamf/amf0.py', 'pyamf/amf3.py'], [('get_timestamp / get_datetime', 'pyamf/util/__init__.py'), ('writeDate/readDate', 'pyamf/amf0.py, pyamf/amf3.py')], ['pyamf.encode', 'pyamf.decode', 'util.get_timestamp', 'util.get_datetime'])
p('C12', 'Remoting envelopes survive encoding and decoding, with exact lengths',
  'An envelope with any headers (name, required flag, value) and any requests and responses (target, response id, status, body) is decoded to equal headers (by name) and equal bodies in the same order, in both AMF versions, and re-encoding what was decoded gives an envelope that decodes equal again. The byte lengths a strict encoder declares equal the real ones, a strict decoder refuses any envelope whose declared length differs, and malformed envelopes are refused with documented errors.',
  ['inputs', 'configurations'], 'envelopes up to a number of headers and bodies, every string content (incl. non-ASCII), every status, both versions, strict and not',
  'Tests use a handful of ASCII envelopes; the length fields, status suffix handling and non-ASCII names are a product space.',
  ['pyamf/remoting/__init__.py'], [('encode/decode', 'pyamf/remoting/__init__.py'), ('_write_header/_write_body/_read_header/_read_body', 'pyamf/remoting/__init__.py')], ['pyamf.remoting.encode', 'pyamf.remoting.decode'])
p('C13', 'Only exposed, public service methods can be called through a gateway',
  'A remote target resolves to exactly the registered service or method that its name denotes and to nothing else: names of methods starting with an underscore, unknown services and unknown or non-callable methods are refused with the matching remoting error, and adding, overwriting and removing services has exactly the stated effect. The method is called once, with exactly the arguments sent.',
  ['inputs', 'histories', 'configurations'], 'all target names over the registered names and arbitrary characters, all registration histories up to a length',
  'Tests use fixed targets and registrations; name parsing and lookup must be right for any name.',
  ['pyamf/remoting/gateway/__init__.py', 'pyamf/remoting/amf0.py', 'pyamf/remoting/amf3.py'], [('ServiceWrapper', 'pyamf/remoting/gateway/__init__.py'), ('BaseGateway.getServiceRequest', 'pyamf/remoting/gateway/__init__.py')], ['BaseGateway.getServiceRequest', 'ServiceWrapper'])
p('C14', 'Protected services run only after their authenticator accepted the caller',
  'Of the authenticator, preprocessor and request-exposure settings attached to a method, a service and a gateway, the most specific one applies. A request whose applicable authenticator does not return True for the credentials sent never reaches the service and is answered with an authentication error, on every way a request can arrive.',
  ['configurations', 'inputs'], 'every combination of settings at the three levels, both protocols, all credentials',
  'Tests cover single levels with fixed credentials; precedence over all combinations, and all protocol paths, are not enumerated.',
  ['pyamf/remoting/gateway/__init__.py', 'pyamf/remoting/amf0.py', 'pyamf/remoting/amf3.py'], [('getAuthenticator/mustExposeRequest/getPreprocessor', 'pyamf/remoting/gateway/__init__.py'), ('authenticateRequest', 'pyamf/remoting/gateway/__init__.py, pyamf/remoting/amf0.py')], ['BaseGateway.getProcessor(...)', 'service side effects'])
p('C15', 'Every request of a batch gets exactly one response, whatever the others do',
  'A gateway answers an envelope of several requests with one response per request, under the same response ids and order; a request that fails, whatever exception its service raises or reason it is refused for, is answered with an error status and does not affect the answers of the others. Error answers carry the error code, type name and message, and no traceback unless debugging is on.',
  ['inputs', 'fault_sequences', 'configurations'], 'every assignment of outcomes (result, any exception class and message, unknown service, refused) to requests of a batch, both protocols, debug on and off',
  'Tests run one failing request with an ASCII message at a time.',
  ['pyamf/remoting/gateway/wsgi.py', 'pyamf/remoting/amf0.py', 'pyamf/remoting/amf3.py', 'pyamf/remoting/__init__.py'], [('build_fault / generate_error', 'pyamf/remoting/amf0.py, pyamf/remoting/amf3.py'), ('RequestProcessor.__call__', 'pyamf/remoting/amf0.py, pyamf/remoting/amf3.py')], ['WSGIGateway', 'BaseGateway.getProcessor(...)'])
p('C16', 'HTTP gateways answer every request with the right status and a well-formed body',
  'The WSGI and Django gateways answer a request that is no POST with an error status (400 or 405) and without touching its body, an undecodable body with 400, an internal failure with 500 and every decodable AMF request with 200, the AMF content type and a body that decodes to the responses. Declared content lengths equal the real ones, internals are not disclosed unless debugging is on, and the answer uses the version of AMF the client used.',
  ['inputs', 'fault_sequences', 'configurations'], 'every body up to a length plus well-formed envelopes, every failure point of decode/process/encode, debug on and off',
  'Tests try a fixed list of bodies and failures.',
  ['pyamf/remoting/gateway/wsgi.py', 'pyamf/remoting/gateway/django.py', 'pyamf/remoting/gateway/__init__.py'], [('WSGIGateway.__call__', 'pyamf/remoting/gateway/wsgi.py'), ('DjangoGateway.__call__', 'pyamf/remoting/gateway/django.py')], ['WSGI start_response and body'])
p('C17', 'The client matches every response to its request and reports every failure',
  'A remoting client gives every pending request its own id, delivers each response to the request of the same id whatever the order, keeps headers and removed requests as asked, and never takes a failure for a result: every response that is not a successful AMF answer raises an error, a remoting error unless the body claims to be AMF and cannot be decoded. Faults reported by the service are raised as the mapped exception.',
  ['inputs', 'histories', 'fault_sequences'], 'all histories of add/remove/execute calls up to a length, all response orders, all HTTP statuses, content types and lengths',
  'Tests run fixed call sequences with one response shape.',
  ['pyamf/remoting/client/__init__.py', 'pyamf/remoting/__init__.py'], [('RemotingService', 'pyamf/remoting/client/__init__.py')], ['RemotingService'])
p('C18', 'Class aliases expose exactly the attributes they are configured to expose',
  'For every class hierarchy and every combination of static, excluded, readonly, synonym, proxied, dynamic and external options, encoding an instance sends exactly the attributes allowed, and decoding sets exactly the attributes allowed. Excluded attributes never cross in either direction, readonly ones are never set from the wire, and options of base classes are inherited.',
  ['configurations', 'inputs'], 'all option combinations over a small attribute universe, up to two levels of inheritance, all sent attribute names',
  'Tests cover single options; combinations (e.g. static with exclude, readonly with only static attributes) are a product space.',
  ['pyamf/alias.py'], [('ClassAlias.compile/getEncodableAttributes/getDecodableAttributes', 'pyamf/alias.py')], ['pyamf.encode', 'pyamf.decode', 'ClassAlias'])
p('C19', 'Class, type, error and package registries reflect exactly their history',
  'After any sequence of registrations and removals of classes, types, error classes, packages and loaders, looking up by class or by name gives the latest live registration and nothing else; refused operations change nothing. Every class registered is the one used to decode its name, and its instances are encoded under that name.',
  ['histories'], 'all sequences of registry operations up to a length over a few classes and names',
  'Tests run single operations; stale entries need particular sequences.',
  ['pyamf/__init__.py'], [('register_class/unregister_class/get_class_alias/load_class', 'pyamf/__init__.py'), ('CLASS_CACHE, ALIAS_TYPES, TYPE_MAP, ERROR_CLASS_MAP, CLASS_LOADERS', 'pyamf/__init__.py')], ['pyamf.register_class', 'pyamf.load_class'])
p('C20', 'Local shared object files survive saving and loading and bad ones are refused',
  'A local shared object with any name and values is loaded back equal after saving, in both AMF versions, and the header length equals the number of bytes that follow. A file whose signature, length, padding or terminator is wrong is refused with a decode error.',
  ['inputs'], 'names and string/number/boolean values up to a size, every single-byte corruption of the header, every truncation',
  'Tests use three fixed files.',
  ['pyamf/sol.py'], [('encode/decode', 'pyamf/sol.py')], ['pyamf.sol.encode', 'pyamf.sol.decode'])
p('C21', 'Flex collections and messages survive the wire, in long and short form',
  'Array collections, object proxies and Flex messages of every kind are decoded equal after encoding. The short form of a message carries the same fields as the long one, for every combination of present and absent fields and every field value, and a part of a message that the format does not know is refused or skipped with the values announced for it, never taken for something else.',
  ['inputs'], 'every subset of message fields set, every boolean/number/string/id value, flag bytes up to two extensions',
  'Tests try a few field combinations.',
  ['pyamf/flex/__init__.py', 'pyamf/flex/messaging.py', 'pyamf/flex/data.py'], [('__readamf__/__writeamf__', 'pyamf/flex/messaging.py'), ('getSmallMessage', 'pyamf/flex/messaging.py')], ['pyamf.encode', 'pyamf.decode'])
p('C22', 'XML restrictions asked for are applied to every XML value decoded',
  'Whatever way an XML value arrives (AMF0, AMF3, AMF3 nested in AMF0, remoting bodies), the DTD and entity restrictions configured on the decoder are applied when it is parsed, and by default (gateways, shared objects and byte arrays always use the default) document type declarations and entities are refused. XML is never resolved against external resources. An element is written by the library that made it and arrives as the same document.',
  ['configurations', 'inputs'], 'every setting of the two flags, every route an XML value may take',
  'Tests check single routes with one flag each.',
  ['pyamf/xml.py', 'pyamf/amf0.py', 'pyamf/amf3.py', 'pyamf/codec.py', 'pyamf/remoting/gateway/__init__.py'], [('fromstring', 'pyamf/xml.py'), ('readXML', 'pyamf/amf0.py, pyamf/amf3.py'), ('getAMF3Decoder', 'pyamf/amf0.py')], ['pyamf.xml.fromstring', 'pyamf.decode'])
p('C23', 'Post-import hooks run exactly once per registration',
  'A callback registered for a module runs exactly once with that module: at once if the module is already imported, otherwise after it is imported; callbacks run in registration order, and importing a module that has no callbacks is unaffected. A hook that fails leaves the others: they still run, and the failure is raised. A module whose import fails keeps its hooks for the next attempt.',
  ['histories'], 'all interleavings of registrations and imports up to a length over a few modules',
  'Tests run one registration and one import.',
  ['pyamf/util/imports.py'], [('ModuleFinder', 'pyamf/util/imports.py')], ['pyamf.util.imports.when_imported', 'pyamf.register_adapter'])
p('C24', 'Adapted library types are encoded as the documented plain values',
  'Instances of sets.Set and ImmutableSet, deques, default and ordered dictionaries, counters, arrays and weak collections are encoded as lists or dictionaries, element for element, and weak references as the referent (null when it is gone); decimals are encoded as the nearest float, and always refused by a strict encoder. A custom type added with add_type is used for every instance of the classes it names and of their subclasses, the closest class winning, or for every value its function accepts, and for no others; the value a converter returns is what is sent, exactly one value in place of the original.',
  ['inputs', 'configurations', 'histories'], 'collections up to a size with arbitrary elements, strict and not, both AMF versions, every subset and order of registrations over a class hierarchy, sequences of values on one encoder',
  'Tests encode one literal per type on a fresh encoder; wrong converters only show with several registrations, subclasses, or particular earlier values.',
  ['pyamf/adapters', 'pyamf/codec.py', 'pyamf/__init__.py'], [('adapters', 'pyamf/adapters'), ('Encoder.getTypeFunc/getCustomTypeFunc', 'pyamf/codec.py'), ('add_type/get_type/remove_type', 'pyamf/__init__.py')], ['pyamf.encode', 'pyamf.add_type'])
p('C25', 'A value is encoded as what it is, or refused with EncodeError',
  'Instances of subclasses of the basic types (numbers, byte and text strings, dates) that are not otherwise registered are encoded exactly like the basic value, wherever they stand. Values AMF has no form for (modules, classes, functions and methods, bare objects, built-in sets, iterators, times of day, integers beyond the range of a double, keys that are neither text nor integers, AMF0 keys over 65535 bytes) are refused with EncodeError wherever they stand in a structure, and what other encoders write afterwards is not affected. A generator given to the encoder writes its values one after the other, none left out, and is refused where exactly one value is expected.',
  ['inputs'], 'every value of the subclassed types, every kind of unencodable value at every kind of place, both AMF versions and AMF3 within AMF0',
  'Tests check a few values at the top level; places inside structures, numeric limits and the state left behind are a product space.',
  ['pyamf/codec.py', 'pyamf/amf0.py', 'pyamf/amf3.py'], [('Encoder.getTypeFunc/writeElement/writeGenerator', 'pyamf/codec.py'), ('serialiseString/writeNumber/writeMixedArray', 'pyamf/amf0.py'), ('writeInteger/writeNumber', 'pyamf/amf3.py')], ['pyamf.encode', 'Encoder.writeElement'])
p('C26', 'What an externalised object or a byte array writes is what it reads',
  'Every typed write of DataOutput (booleans, bytes, shorts, ints, floats, doubles, UTF text, multi-byte text, objects) produces the documented big-endian bytes, and the matching read of DataInput gives the value back; a value out of range is refused and nothing is written; a read beyond the end is refused and consumes nothing. This holds alone, on a ByteArray, and within externalised objects nested, shared and cyclic in AMF0 and AMF3: what an externalised class writes is exactly what it reads, and the values around it are not disturbed. A byte array survives the wire byte for byte, compressed or not.',
  ['inputs', 'histories'], 'every value of every typed write, sequences of writes and reads, graphs of externalised objects',
  'Tests write one value per type.',
  ['pyamf/amf3.py', 'pyamf/util/pure.py'], [('DataOutput/DataInput/ByteArray', 'pyamf/amf3.py'), ('readObject/writeObject with external', 'pyamf/amf3.py')], ['pyamf.amf3.DataOutput', 'pyamf.amf3.ByteArray'])
p('C27', 'One codec, whichever way it is driven',
  'Encoding values at once, one after the other on one encoder, or through send and next gives the same bytes; decoding a stream at once, value by value, or fed piece by piece through send gives the same values, each once and in order. Post-processors see each decoded value once, complete, in the order they were added, and the last result is what the caller gets. A context shared by codecs carries the references from one to the next, a context of its own does not. Unknown encodings and options are refused.',
  ['histories', 'inputs'], 'every history of calls up to a length over values that share parts', 'Tests drive the codec in one way at a time.',
  ['pyamf/codec.py', 'pyamf/__init__.py'], [('Codec/Encoder/Decoder', 'pyamf/codec.py'), ('encode/decode/get_encoder/get_decoder', 'pyamf/__init__.py')], ['pyamf.encode', 'pyamf.decode', 'pyamf.get_encoder'])
p('C28', 'Record sets survive the wire and hostile ones are refused',
  'A RecordSet arrives as a RecordSet with the same columns, rows, service name and id, alone, within containers and shared, in AMF0 and AMF3, whatever text its labels hold; two record sets never share their column or row lists unless they were given the same ones. Whatever is sent as server information of a record set, the decoder gives a record set or raises a documented decoding error.',
  ['inputs'], 'columns, rows and labels up to a size with any text and numbers, every kind of value in place of every part of the server information', 'Tests encode and decode one fixed record set.',
  ['pyamf/amf0.py'], [('RecordSet', 'pyamf/amf0.py')], ['pyamf.amf0.RecordSet'])
p('C29', 'Twisted and App Engine gateways answer every request once, like the WSGI gateway',
  'The Twisted gateway finishes every HTTP request exactly once, in whatever order threads finish and deferred results arrive: with 400 for bodies that are no envelope, 500 for answers that cannot be encoded, and otherwise 200 and an envelope with exactly one answer per request, in both protocols, each as it would be alone (result, failure, unknown service, refused). Authenticator, preprocessor and service run in turn, each only after the one before succeeded, whether they answer at once or later; protected services run only for callers whose authenticator returned (or later delivered) True for exactly the credentials sent. The App Engine gateway answers each request once with the same statuses, 405 for other methods. Neither discloses internals without debugging.',
  ['inputs', 'schedules', 'configurations'], 'every request of a batch, every outcome, every order of deferred results', 'Tests need Twisted and App Engine, absent here, and run one order.',
  ['pyamf/remoting/gateway/twisted.py', 'pyamf/remoting/gateway/google.py'], [('TwistedGateway', 'pyamf/remoting/gateway/twisted.py'), ('WebAppGateway', 'pyamf/remoting/gateway/google.py')], ['TwistedGateway.render_POST', 'WebAppGateway.post'])
p('C30', 'Objects mapped with Django or SQLAlchemy arrive as what the database holds',
  'Every field of a Django model is sent under its name and returns with its value: dates as their midnight, times as that time of 1970-01-01, files by name and never assigned, missing defaults as undefined, automatic keys of 0 as none. Related objects are sent if they were fetched, and encoding fetches none; many-to-many relations as lists; inherited fields once and parent links never, for proxy models too. Fields not sent are left as they are, rows named by primary key are loaded and updated, and objects of one class and primary key within one message arrive as one object. Query sets arrive as lists. SQLAlchemy objects are sent with all mapped attributes, primary key and list of unloaded attributes (unless excluded), and on arrival attributes named as unloaded are left for the database to load; their collections arrive as plain lists and dictionaries. Handlers registered for property classes convert the values of exactly these properties.',
  ['inputs', 'configurations', 'histories'], 'every value of every kind of field, every combination of fetched relations, sent attributes and existing rows, every order of handlers', 'Tests need the libraries and hold one example per field.',
  ['pyamf/adapters'], [('DjangoClassAlias', 'pyamf/adapters/_django_db_models_base.py'), ('SaMappedClassAlias', 'pyamf/adapters/_sqlalchemy_orm.py'), ('handlers', 'pyamf/adapters/models.py')], ['pyamf.encode', 'pyamf.decode'])
p('C31', 'App Engine entities arrive as what the datastore holds',
  'Every property of a db or ndb entity is sent under its name with the key as text in "_key" (None while unsaved) and nothing else that starts with "_"; encoding leaves the entity as it was. db references are sent as the entity they name, or None if it no longer exists; keys in the stream stand for their entity, queries are lists, ndb key properties are sent as text, ndb times are refused with EncodeError. Within one message each entity named by a reference or key is fetched at most once and arrives as one object. On arrival, entities that name a key are fetched together in one call, loaded from their row and updated with what was sent; without a row they get that key, without a key they are new. Whole numbers, fractions, dates, times and lists become what the property wants; computed properties and reverse references are never assigned. Entities that refer to each other arrive as entities that refer to each other, and several values decoded in a row are each decoded as they would be alone.',
  ['inputs', 'configurations', 'histories'], 'every value of every kind of property, every combination of keys, rows and references, every sequence of values', 'Tests need the App Engine SDK and hold one example per property.',
  ['pyamf/adapters'], [('BaseDatastoreClassAlias, StubCollection', 'pyamf/adapters/gae_base.py'), ('DataStoreClassAlias', 'pyamf/adapters/_google_appengine_ext_db.py'), ('NDBClassAlias', 'pyamf/adapters/_google_appengine_ext_ndb.py')], ['pyamf.encode', 'pyamf.decode'])
p('C32', 'Points, blobs, lazily translated texts and Elixir entities are sent as documented',
  'A GeoPt is sent with its two coordinates and nothing else and arrives as that point, whatever else a peer adds. A BlobInfo is sent with content type, file name, size, creation time and key, and arrives as the blob of that key; one without a valid key is refused with DecodeError, and nothing else a peer sends gets in. A lazily translated text is sent as the text it stands for at that moment, wherever it is met. An Elixir entity is sent and received with its mapped attributes and primary key, without its foreign keys, the column of its type and what Elixir itself keeps.',
  ['inputs', 'configurations'], 'every pair of coordinates, every combination of attributes a peer may send, every configuration of an entity', 'Tests need the libraries, absent here.',
  ['pyamf/adapters'], [('GeoPtClassAlias', 'pyamf/adapters/_google_appengine_api_datastore_types.py'), ('BlobInfoClassAlias', 'pyamf/adapters/_google_appengine_ext_blobstore.py'), ('convert_lazy', 'pyamf/adapters/_django_utils_translation.py'), ('ElixirAdapter', 'pyamf/adapters/_elixir.py')], ['pyamf.encode', 'pyamf.decode'])
p('N01', 'The C extensions behave as the pure Python code',
  'For every input the accelerated codec gives the same bytes, values and errors as the pure Python codec.',
  ['inputs'], 'every value and byte sequence', 'Tests run the same suite on both where built; here the extension is not built.',
  ['cpyamf'], [('cpyamf', 'cpyamf/*.pyx')], ['cpyamf.amf3'])
p('N04', 'Concurrent requests on one gateway do not interfere',
  'Requests handled at the same time by threads sharing one gateway and one process-wide registry get the answers they would get alone.',
  ['schedules'], 'every thread interleaving', 'Tests are single-threaded.',
  ['pyamf/__init__.py', 'pyamf/remoting/gateway/__init__.py'], [('process-wide tables', 'pyamf/__init__.py')], ['WSGIGateway'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
