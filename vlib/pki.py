"""Certificates made with the openssl command for the checks."""
import os
import shutil
import subprocess
import tempfile


class Pki:
    """A directory of keys and certificates that is removed at the end."""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='wssv-pki-')
        self.serial = 1000

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def run(self, *args):
        p = subprocess.run(('openssl',) + args, cwd=self.dir, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise RuntimeError('openssl %s: %s' % (' '.join(args), p.stdout.decode('latin1')[-500:]))
        return p.stdout

    def key(self, name, kind='ec'):
        if kind == 'rsa':
            self.run('genpkey', '-quiet', '-algorithm', 'RSA', '-pkeyopt', 'rsa_keygen_bits:2048', '-out', name + '.key')
        elif kind == 'ed25519':
            self.run('genpkey', '-algorithm', 'ed25519', '-out', name + '.key')
        else:
            self.run('genpkey', '-algorithm', 'EC', '-pkeyopt', 'ec_paramgen_curve:' + {'ec': 'P-256'}.get(kind, kind), '-out', name + '.key')

    def cert(self, name, issuer=None, kind='ec', ca=False, usage=None, alt=None, start=None, end=None, critical=False, subject=None):
        """name.key and name.pem, signed by the issuer (by itself if there is none)."""
        if not os.path.exists(self.path(name + '.key')):
            self.key(name, kind)
        self.serial += 1
        ext = ['basicConstraints=critical,CA:%s' % ('TRUE' if ca else 'FALSE')]
        if ca:
            ext.append('keyUsage=critical,keyCertSign,cRLSign')
        if usage:
            ext.append('extendedKeyUsage=' + usage)
        if alt:
            ext.append('subjectAltName=' + alt)
        if critical:
            ext.append('1.2.3.4.5=critical,ASN1:UTF8String:unknown')
        with open(self.path(name + '.cnf'), 'w') as f:
            f.write('[req]\ndistinguished_name=dn\nprompt=no\n[dn]\nCN=%s\n[ca]\ndefault_ca=c\n[c]\ndatabase=%s.db\nnew_certs_dir=.\n'
                    'serial=%s.srl\ndefault_md=sha256\npolicy=p\nunique_subject=no\n[p]\ncommonName=supplied\n[e]\n%s\n' % (subject or name, name, name, '\n'.join(ext)))
        open(self.path(name + '.db'), 'w').close()
        with open(self.path(name + '.srl'), 'w') as f:
            f.write('%X\n' % self.serial if len('%X' % self.serial) % 2 == 0 else '0%X\n' % self.serial)
        self.run('req', '-new', '-config', name + '.cnf', '-key', name + '.key', '-out', name + '.csr')
        who = ['-selfsign', '-keyfile', name + '.key'] if issuer is None else ['-cert', issuer + '.pem', '-keyfile', issuer + '.key']
        self.run('ca', '-batch', '-notext', '-config', name + '.cnf', '-extensions', 'e', '-in', name + '.csr', '-out', name + '.pem',
                 '-startdate', start or '20200101000000Z', '-enddate', end or '20991231000000Z', *who)
        return self.path(name + '.pem')

    def text(self, name):
        with open(self.path(name)) as f:
            return f.read()

    def write(self, name, data):
        with open(self.path(name), 'w') as f:
            f.write(data)
        return self.path(name)

    def der(self, name):
        return self.run('x509', '-in', name + '.pem', '-outform', 'DER')

    def folder(self, name, *certs):
        """A folder of trusted certificates."""
        os.mkdir(self.path(name))
        for c in certs:
            shutil.copy(self.path(c + '.pem'), self.path(name))
        self.run('rehash', name)
        return self.path(name)
