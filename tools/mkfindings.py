import subprocess
log=subprocess.run(["git","-C","/repo","log","--format=%h %s","--reverse"],capture_output=True,text=True).stdout.splitlines()
M={"keep objects alive":("C11","an object freed during encoding let another object with the same id be taken for it: encode of objects whose properties or state are built on the fly"),
"escaped string keys":("C05","with keys=True a string key starting with the escape prefix was dropped or decoded as another key"),
"base64 and base85 tags":("C05","a dict with the key py/b64 or py/b85 lost it"),
"proxies stored under string keys":("C02","with keys=True a value under a string key that refers to an object restored later stayed a proxy"),
"items of dict subclasses":("C06","an item of a dict subclass that refers back to an object under construction stayed a proxy"),
"errors raised while flattening slot":("C10","an AttributeError raised while a slot value was flattened silently dropped the slot"),
"malformed bytearray":("C13","{\"py/bytearray\"...} with a malformed payload raised"),
"unresolvable top-level":("C13","a document that is an unresolvable reference decoded to an internal proxy object"),
"compiled bytes regular":("C18","re.compile(b'...') could not be encoded"),
"numpy datetime64 handler":("C19","unregister_handlers left the datetime64 handler registered"),
"list a backend twice":("C17","loading a loaded backend listed it twice, so its failure was tried twice"),
"PandasProcessor without compression":("C20","PandasProcessor(compression=None) raised"),
"after fail_safe replaced":("C10","an object replaced by fail_safe kept its id, so later references pointed at other objects"),
"do not modify the document":("C11","decoding a document with a default factory removed the factory from the caller's document"),
"fold attribute":("C18","datetime and time lost fold=1"),
"views of datetime64":("C19","views of datetime64 and timedelta64 arrays failed to decode"),
"byte order of array views":("C19","views and structured arrays with non-native byte order decoded to other values"),
"record Fortran order only":("C19","a transposed view of a C array was recorded with the wrong order"),
"keep Fortran order when restoring":("C19","binary arrays in Fortran order came back in C order"),
"name of a pandas index":("C20","index names were lost"),
"in list subclasses":("C02","a list subclass inside the state of a reduced object that refers back to the object kept a placeholder"),
"in frozen dataclasses":("C02","decoding a frozen dataclass inside the state of a reduced object that refers back to the object raised"),
"in private slots":("C02","decoding an object with a private slot inside the state of a reduced object that refers back to the object raised"),
"subclass that equal its items":("C06","a dict subclass whose attributes equal its items lost the attributes"),
"state returned by reduce":("C04","a reduce state that is a dict-and-slots pair made decoding raise when the object has a dict"),
"empty keyword arguments":("C02","empty keyword arguments from __getnewargs_ex__ shifted every later reference"),
"defaultdict with a function":("C02","in [defaultdict(function, a=L), L] the second L decoded to the factory object"),
"Series names that are tuples":("C20","a Series whose name is a tuple could not be decoded, one whose name is a NumPy number (a row of a DataFrame) not encoded"),
"names of DataFrame indexes":("C20","a DataFrame whose index or column names are tuples could not be decoded"),
"reference numbers that are negative":("C13","a negative reference number decoded to an object counted from the end, true or false to object 1 or 0"),
"reduce hook of a class":("C04","a class with a reduce hook and a state getter but no state setter was rebuilt without its factory being called"),
"restore a submodule":("C21","a module whose name its package uses for something else (unittest.main) decoded to that something else"),
"array is stored as a deep copy":("C19","a view on a Fortran-ordered array over a buffer was restored with the wrong elements"),
"byte order of arrays stored as text":("C19","a byte view on a small big-endian array was restored with the wrong elements"),
"slot listed by several":("C03","a slot repeated by a subclass came back as a reference to something else")}
out=["# fixed: property=<id> <commit in /repo> <what failed>   (defects found and repaired)",
"# KNOWN property=<id> suite=<suite> input=<text in the failing input> :: <what fails>   (open findings; none)"]
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    k=[k for k in M if k in s]
    assert len(k)==1,(s,k)
    out.append(f"fixed: property={M[k[0]][0]} {h} {M[k[0]][1]}")
open("/verif/known-findings.txt","w").write("\n".join(out)+"\n")
