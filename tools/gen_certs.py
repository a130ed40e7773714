"""Generates the test certificates in sim/certs (committed; run once)."""
import os, datetime
from cryptography import x509
from cryptography.x509.oid import NameOID
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import rsa
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sim', 'certs')
A, B = datetime.datetime(2020, 1, 1), datetime.datetime(2090, 1, 1)


def name(n):
    return x509.Name([x509.NameAttribute(NameOID.ORGANIZATION_NAME, 'sim'), x509.NameAttribute(NameOID.COMMON_NAME, n)])


def save(n, cert, key):
    open(f'{D}/{n}.crt', 'wb').write(cert.public_bytes(serialization.Encoding.PEM))
    open(f'{D}/{n}.key', 'wb').write(key.private_bytes(serialization.Encoding.PEM, serialization.PrivateFormat.PKCS8,
                                                       serialization.NoEncryption()))


def make(n, issuer=None):
    key = rsa.generate_private_key(public_exponent=65537, key_size=2048)
    ca = issuer is None
    c = (x509.CertificateBuilder().subject_name(name(n)).issuer_name(name(n) if ca else issuer[0].subject)
         .public_key(key.public_key()).serial_number(x509.random_serial_number()).not_valid_before(A).not_valid_after(B)
         .add_extension(x509.BasicConstraints(ca=ca, path_length=None), critical=True)
         .sign(key if ca else issuer[1], hashes.SHA256()))
    save(n, c, key)
    return c, key


ca = make('ca'); other = make('otherca')
for n in ('vtn', 'ven1', 'ven2', 'ven3', 'mallory', 'othervtn'):
    make(n, ca)
make('stranger', other)
