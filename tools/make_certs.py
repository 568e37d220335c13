#!/usr/bin/env python3
"""Makes the certificates in mc/tls/certs. They are committed; this is only needed to change them."""
import os, shutil, subprocess, tempfile

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc/tls/certs")
NAME = "irc.chat.twitch.tv"
LONG = ("20000101000000Z", "21990101000000Z")
PAST = ("20000101000000Z", "20010101000000Z")
FUTURE = ("21500101000000Z", "21990101000000Z")

work = tempfile.mkdtemp()


def sh(*args):
    subprocess.run(args, check=True, cwd=work, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def key(name):
    sh("openssl", "ecparam", "-name", "prime256v1", "-genkey", "-noout", "-out", f"{name}.ec")
    sh("openssl", "pkcs8", "-topk8", "-nocrypt", "-in", f"{name}.ec", "-out", f"{name}.key")


def make(name, subject, issuer, ext, dates=LONG):
    """A certificate with its own key, signed by `issuer` (itself if None)."""
    key(name)
    sh("openssl", "req", "-new", "-key", f"{name}.key", "-subj", f"/CN={subject}", "-out", f"{name}.csr")
    with open(f"{work}/ext", "w") as f:
        f.write("[e]\n" + "\n".join(ext) + "\n")
    with open(f"{work}/ca.conf", "w") as f:
        f.write("[ca]\ndefault_ca=d\n[d]\ndatabase=index\nnew_certs_dir=.\ndefault_md=sha256\npolicy=p\n"
                "unique_subject=no\nrand_serial=yes\n[p]\ncommonName=supplied\n")
    open(f"{work}/index", "w").close()
    args = ["openssl", "ca", "-batch", "-config", "ca.conf", "-in", f"{name}.csr", "-out", f"{name}.pem", "-notext",
            "-startdate", dates[0], "-enddate", dates[1], "-extfile", "ext", "-extensions", "e"]
    if issuer is None:
        args += ["-selfsign", "-keyfile", f"{name}.key"]
    else:
        args += ["-cert", f"{issuer}.pem", "-keyfile", f"{issuer}.key"]
    sh(*args)


CA = ["basicConstraints=critical,CA:TRUE", "keyUsage=critical,keyCertSign,cRLSign"]


def leaf(name, san=f"DNS:{NAME}", issuer="root", dates=LONG, subject=NAME, eku="serverAuth"):
    ext = ["basicConstraints=critical,CA:FALSE", "keyUsage=critical,digitalSignature"]
    if eku:
        ext.append(f"extendedKeyUsage={eku}")
    if san:
        ext.append(f"subjectAltName={san}")
    make(name, subject, issuer, ext, dates)


make("root", "Test Root", None, CA)
make("other", "Other Root", None, CA)
make("twin", "Test Root", None, CA)  # the name of the trusted root, but another key
make("intermediate", "Test Intermediate", "root", CA)
make("expired_intermediate", "Test Old Intermediate", "root", CA, PAST)

leaf("good")
leaf("good_several", san=f"DNS:a.example,DNS:{NAME},DNS:b.example", subject="a.example")
leaf("good_wildcard", san="DNS:*.chat.twitch.tv", subject="chat")
leaf("good_chain", issuer="intermediate")
leaf("good_other", issuer="other")
leaf("wrong_name", san="DNS:irc.example.com")
leaf("parent_name", san="DNS:chat.twitch.tv,DNS:twitch.tv")
leaf("wide_wildcard", san="DNS:*.twitch.tv")
leaf("prefix_name", san=f"DNS:{NAME}.example.com")
leaf("suffix_name", san=f"DNS:x{NAME}")
leaf("only_subject", san=None)
leaf("address", san="IP:127.0.0.1,IP:192.0.2.1")
leaf("localhost", san="DNS:localhost", subject="localhost")
leaf("expired", dates=PAST)
leaf("future", dates=FUTURE)
leaf("for_clients", eku="clientAuth")
leaf("by_twin", issuer="twin")
leaf("by_expired", issuer="expired_intermediate")
leaf("by_leaf", issuer="good")
make("self_signed", NAME, None, ["basicConstraints=critical,CA:FALSE", f"subjectAltName=DNS:{NAME}"])

for name in os.listdir(work):
    if name.endswith(".pem") and not name[0].isdigit() and len(name) < 30:
        stem = name[:-4]
        if not os.path.exists(f"{work}/{stem}.key"):
            continue
        shutil.copy(f"{work}/{name}", f"{OUT}/{name}")
        shutil.copy(f"{work}/{stem}.key", f"{OUT}/{stem}.key")
shutil.rmtree(work)
