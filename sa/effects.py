"""Effects: calls that write to a stream, and calls that change something outside of the process."""
import re
import cg

STREAM = re.compile(r'(^|<)(std|core)::io::write::Write(>| as|$)|^(std|core|binrw)::io::Write$|^std::io::Write$')
# types whose writing stays inside of the process or goes to the terminal
MEMORY = ('alloc::vec::Vec', 'alloc::string::String', 'std::io::stdio::Stdout', 'std::io::stdio::StdoutLock',
          'std::io::stdio::Stderr', 'std::io::stdio::StderrLock', 'std::io::util::Sink', 'core::io::util::Sink',
          'alloc::collections::vec_deque::VecDeque')
WRAP = ('Cursor', 'BufWriter', 'BufReader', 'LineWriter', 'Box', 'XorStream', 'NoSeek', 'BufStream', 'Take', 'Chain')
FS_READ = re.compile(r'(^|::)(open|metadata|symlink_metadata|read|read_dir|read_to_string|canonicalize|exists|try_exists|'
                     r'read_link|is_file|is_dir|is_symlink|len|file_type|modified|accessed|created|try_clone|fmt|path|'
                     r'file_name|permissions|next|read_exact|read_to_end|seek|stream_position|rewind|from|into|new|clone|eq)$')
OPEN_WRITE = re.compile(r'OpenOptions.*::(write|append|create|create_new|truncate|mode|custom_flags)$')
ENV_OK = re.compile(r'std::env::(args|args_os|var|var_os|vars|current_dir|temp_dir|home_dir|consts)|Args')


def outside(name):
    """a call that changes the world outside of the process (or may do so); None if it does not"""
    n = name
    if 'std::fs' in n or 'std::os::' in n:
        if OPEN_WRITE.search(n):
            return 'opens a file for writing'
        return None if FS_READ.search(n) or 'OpenOptions' in n or ' as ' in n else 'changes the file system'
    if n.startswith('std::path::') and re.search(r'::(create|remove|rename)', n):
        return 'changes the file system'
    if 'std::process::' in n:
        return None if re.search(r'::(exit|abort|id|ExitCode|Termination|report|from)', n) else 'starts a process'
    if 'std::net::' in n:
        return 'uses the network'
    if 'std::env::' in n:
        return None if ENV_OK.search(n) else 'changes the environment'
    if n.startswith('libc::') or n.startswith('nix::'):
        return 'calls the system'
    return None


def write_call(c):
    """the type (argument index) a call writes to, if it is one that writes"""
    tr = c.get('tr') or ''
    name = c.get('name') or ''
    p = c.get('rp', c.get('p')) or ''
    if tr.endswith('::Write') and 'fmt' not in tr:
        return 0
    if tr == 'binrw::binwrite::BinWrite' and name.startswith('write'):
        return 1
    if tr.endswith('BinWriterExt'):
        return 0
    if p.startswith('binrw::__private::write_zeroes'):
        return 0
    if re.match(r'(std|core)::io::(copy|util::copy)', p) or p.endswith('io::copy::copy'):
        return 1
    return None


def target_type(cr, ti, d=0):
    """'mem' for sinks inside of the process, ('param', name) or the text of the type that is written to"""
    t = cr.T[ti]
    if t['k'] in ('ref', 'ptr') and d < 8:
        return target_type(cr, t['t'], d + 1)
    if t['k'] in ('slice', 'array'):
        return 'mem'
    if t['k'] == 'param':
        return ('param', t['name'])
    if t['k'] == 'adt':
        p = t['path']
        if p in MEMORY:
            return 'mem'
        if p.split('::')[-1] in WRAP and t.get('args'):
            a = [x for x in t['args'] if isinstance(x, int)]
            return target_type(cr, a[0], d + 1) if a else 'mem'
    return t['s']


def by_ref_params(f):
    """type parameters of a function that it is given as an argument of type &mut P"""
    cr = f['crate']
    out = set()
    for l in f['locals'][1:f.get('argc', 0) + 1]:
        t = cr.T[l['t']]
        if t['k'] == 'ref' and cr.T[t['t']]['k'] == 'param':
            out.add(cr.T[t['t']]['name'])
        elif t['k'] == 'param':
            pass
    return out
