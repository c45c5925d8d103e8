# property id -> how its check is built
CHECKS = {
    'A02': dict(src=['harness/a02_spake.cpp'], inc=['include/auth']),
    'A03': dict(src=['harness/a03_privpass.cpp'], inc=['include/auth']),
    'A01': dict(src=['harness/a01_otp.cpp'], inc=['include/auth']),
    'B01': dict(src=['harness/b01_base64.cpp'], inc=['bsl/pem/include', 'bsl/include']),
    'B02': dict(src=['harness/b02_asn1.cpp'], inc=['bsl/asn1/include', 'bsl/include', 'bsl/obj/include']),
    'B03': dict(src=['harness/b03_containers.cpp'], inc=['bsl/hash/include', 'bsl/list/include', 'bsl/include']),
    'B04': dict(src=['harness/b04_conv.cpp'], inc=['bsl/sal/include', 'bsl/obj/include', 'bsl/print/include', 'bsl/include']),
    'B05': dict(src=['harness/b05_uio.cpp'], inc=['bsl/buffer/include', 'bsl/uio/include']),
    'B06': dict(src=['harness/b06_tables.cpp'], inc=['bsl/conf/include', 'bsl/err/include', 'bsl/uio/include', 'bsl/list/include']),
    'C01': dict(src=['harness/c01_md.cpp']),
    'C02': dict(src=['harness/c02_mac.cpp']),
    'C03': dict(src=['harness/c03_cipher.cpp']),
    'C04': dict(src=['harness/c04_aead.cpp']),
    'C05': dict(src=['harness/c05_kdf.cpp']),
    'C06': dict(src=['harness/c06_drbg.cpp']),
    'C07': dict(src=['harness/c07_bn.cpp'], inc=['crypto/bn/include'], ld=['-lgmp']),
    'C08': dict(src=['harness/c08_ec.cpp']),
    'C09': dict(src=['harness/c09_25519.cpp']),
    'C10': dict(src=['harness/c10_rsa.cpp']),
    'C11': dict(src=['harness/c11_ff.cpp']),
    'C12': dict(src=['harness/c12_sm2.cpp']),
    'C13': dict(src=['harness/c13_sm9.cpp']),
    'C14': dict(src=['harness/c14_kem.cpp']),
    'C15': dict(src=['harness/c15_pqsig.cpp']),
    'C16': dict(src=['harness/c16_hbs.cpp'], inc=['bsl/include']),
    'C17': dict(src=['harness/c17_hpke.cpp']),
    'C18': dict(src=['harness/c18_codec.cpp']),
    'C19': dict(reuse=['C01', 'C02', 'C03', 'C04', 'C07', 'C08', 'C09', 'C10', 'C12', 'C14', 'C15'], flavours=['noasm'], scale=0.1),
    'C20': dict(src=['harness/c20_randfail.cpp']),
    'C21': dict(src=['harness/c21_oom.cpp'], inc=['tls'], ld=['-lssl']),
    'P01': dict(src=['harness/p01_parse.cpp']),
    'P04': dict(src=['harness/p04_identity.cpp']),
    'P02': dict(src=['harness/p02_gen.cpp']),
    'P05': dict(src=['harness/p05_p12.cpp']),
    'P06': dict(src=['harness/p06_cms.cpp']),
    'P03': dict(src=['harness/p03_chain.cpp']),
    'T01': dict(src=['harness/t01_agree.cpp'], inc=['tls'], ld=['-lssl']),
    'T02': dict(src=['harness/t02_stream.cpp'], inc=['tls'], ld=['-lssl']),
    'T03': dict(src=['harness/t03_mitm.cpp'], inc=['tls'], ld=['-lssl']),
    'T06': dict(src=['harness/t06_auth.cpp'], inc=['tls'], ld=['-lssl', '-Wl,--wrap=CRYPT_EAL_PkeySign']),
    'T09': dict(src=['harness/t09_close.cpp'], inc=['tls'], ld=['-lssl']),
    'T04': dict(src=['harness/t04_hostile.cpp', 'harness/t04_shim.c'], inc=['tls', 'tls/alert/include', 'tls/app/include', 'tls/ccs/include', 'tls/cert/include', 'tls/cm/include', 'tls/config/include', 'tls/crypt/include', 'tls/feature/quic_tls/include', 'tls/handshake/common/include', 'tls/handshake/cookie/include', 'tls/handshake/include', 'tls/handshake/pack/include', 'tls/handshake/parse/include', 'tls/handshake/reass/include', 'tls/handshake/recv/include', 'tls/handshake/send/include', 'tls/include', 'tls/record/include', 'bsl/hash/include', 'bsl/sal/include'], ld=['-lssl', '-Wl,--wrap=HS_SendMsg', '-Wl,--wrap=REC_Write']),
    'T05': dict(src=['harness/t05_dtls.cpp'], ld=['-Wl,--wrap=BSL_SAL_SysTimeGet']),
    'T07': dict(src=['harness/t07_resume.cpp'], ld=['-Wl,--wrap=BSL_SAL_CurrentSysTimeGet']),
    'T08': dict(src=['harness/t08_interop.cpp'], inc=['tls'], ld=['-lssl']),
}
