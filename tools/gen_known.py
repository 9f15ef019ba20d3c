"""writes known_findings.json (hand-kept list below; commit hashes looked up by subject)"""
import json, os, subprocess
FIXED = [
 ("C19","fix: leave the garbage collector state","a collector disabled by the caller was enabled by dump/load, and a failing close left it disabled"),
 ("C18","fix: hand the opened file to the hickle v3","a v3 file passed as file object or open h5py file could not be loaded; a v3 file opened for writing by the caller was reopened"),
 ("C01","fix: close the file even if flushing","the file stayed open if flush() raised"),
 ("C07","fix: restore False dict keys","dump({False:1}) was loaded as {True:1}"),
 ("C07","fix: store dict keys of str, bytes and number subclasses","dicts with keys of a str or bytes subclass (numpy.str_) could not be loaded"),
 ("C07","fix: store dict keys containing NUL","keys 'a\\0b' were refused by or cut short in HDF5 node names"),
 ("C13","fix: mark datasets of str and bytes subclasses","str subclass instances were loaded as the repr of an array"),
 ("C04","fix: register a container for matrices","numpy.matrix of strings or objects was written as a group no reader was registered for"),
 ("C08","fix: do not try to compress 0-dimensional","dump(numpy.array(3.0),...,compression='gzip') raised TypeError"),
 ("C04","fix: load empty arrays of strings and objects","numpy.array([],dtype=str) could not be loaded, dtype=object came back as array(Empty)"),
 ("C22","fix: store lists of single bytes strings","dump([b'a',b'b']) raised ValueError"),
 ("C22","fix: store lists of integers exceeding 64 bit","dump([2**70]) raised OverflowError"),
 ("C10","fix: accept modes w+ and x+","dump(obj,'file','w+') raised ValueError although documented"),
 ("C02","fix: drop the reference manager of read-only hickle 4.x","a second load from the same open read-only 4.x file raised LookupError"),
 ("C15","fix: refuse to exclude essential loaders","register_class_exclude(b'!recover!') was accepted"),
 ("C15","fix: do not leave the loader tables half changed","register_class_exclude('pickle') with a tag given as text changed the tables before it failed"),
 ("C17","fix: recover data on any ImportError","ImportError other than ModuleNotFoundError made load fail; recovered 4.x data named '!recover!' as type tag"),
 ("C17","fix: recover empty datasets and datasets of variable length strings","an empty list subclass or a variable length string dataset whose class is missing made load fail"),
 ("C17","fix: make recovered data hashable","a dict key or set item whose class is missing made load fail (unhashable)"),
 ("C17","fix: name the broken types table entry","reporting a broken types table raised UnboundLocalError"),
 ("C05","fix: dump scalar astropy times","dump(Time('2020-01-01')) raised AttributeError"),
 ("C03","fix: do not add a types table","loading a 4.x file through a handle opened for writing added the group hickle_types_table to it"),
 ("C21","fix: look up loaders for classes of modules which have no spec","dumping an instance of a class defined in __mp_main__ raised ValueError in find_spec"),
 ("C21","fix: look up loaders for classes of packages imported from an archive","dumping an instance of a class imported from a zip archive raised NotADirectoryError"),
 ("C05","fix: keep metadata of astropy tables apart","a table whose meta uses a name hickle stores itself (base_type, names, colnames, ...) was loaded wrongly or not at all"),
 ("C05","fix: do not drop the mask of astropy tables","a masked astropy table was loaded unmasked"),
 ("C05","fix: do not drop frame, distance and velocity","a SkyCoord in another frame than ICRS, or with distance or velocity, was loaded as plain ICRS direction"),
 ("C22","fix: do not pack integers exceeding the precision","dump([2**53+1,0.5]) was loaded as [2.0**53,0.5]"),
 ("C23","fix: decode text of hickle 3 files","text in a hickle 3 file was loaded as \"b'abc'\" with h5py 3"),
 ("C23","fix: do not turn False keys","{True:1,False:2} dumped by hickle 3 was loaded as {True:...}, one entry lost"),
 ("C23","fix: load hickle 3 dicts with keys which are not ASCII","a hickle 3 file with the dict key '\u00fc' could not be loaded"),
 ("C23","fix: do not load masks of hickle 3 files","a list of masked arrays dumped by hickle 3 was loaded with an extra None after every array"),
 ("C05","fix: pickle structured dtypes and arrays","arrays and masked arrays with fields could not be loaded again, dtypes with fields were loaded without them"),
 ("C13","fix: hand subclasses of dict their items as mapping","dump(Counter('aab')) was loaded as Counter({('a',2):1,('b',1):1})"),
 ("C05","fix: pickle the masked constant","numpy.ma.masked, an item of every list made from a masked array, could not be loaded again"),
 ("C05","fix: keep the imaginary part","the imaginary part of complex quantities was dropped"),
 ("C05","fix: pickle times which are masked","masked times were loaded as other, unmasked times; datetime and ymdhms times could not be stored or loaded"),
 ("C05","fix: pickle tables with units","the units of table columns were dropped"),
]
FINDINGS = [
 {"property":"C07","rule":"C07.distinct","construct":"dict writer: NaN keys of class %s" % c,
  "what":"create_dictlike_dataset names an entry by repr(key): dump({%s('nan'):1, %s('nan'):2}) raises ValueError, both NaN keys get the node name %s" % (c,c,n)}
 for c,n in (("float","'nan'"),("complex","'(nan+0j)'"))
]
log = subprocess.check_output(["git","-C","/repo","log","--format=%h %s"],text=True).splitlines()
fixed = []
for pid, subj, what in FIXED:
    h = [l.split()[0] for l in log if l.split(" ",1)[1].startswith(subj)]
    assert len(h) == 1, (subj, h)
    fixed.append("fixed: property=%s %s %s" % (pid, h[0], what))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"known_findings.json")
json.dump({"findings": FINDINGS, "fixed": fixed}, open(out,"w"), indent=1)
