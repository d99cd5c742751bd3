// Every list of k result types over {void, A, B, C}, up to renaming the types.
#define V void
#define LISTS2(Q) Q(vv, V, V) Q(va, V, A) Q(av, A, V) Q(aa, A, A) Q(ab, A, B)
#define LISTS3(Q) Q(vvv, V, V, V) Q(vva, V, V, A) Q(vav, V, A, V) Q(vaa, V, A, A) Q(vab, V, A, B) Q(avv, A, V, V) Q(ava, A, V, A) Q(avb, A, V, B) Q(aav, A, A, V) Q(aaa, A, A, A) Q(aab, A, A, B) Q(abv, A, B, V) Q(aba, A, B, A) Q(abb, A, B, B) Q(abc, A, B, C_)
#define LISTS4(Q) Q(vvvv, V, V, V, V) Q(vvva, V, V, V, A) Q(vvav, V, V, A, V) Q(vvaa, V, V, A, A) Q(vvab, V, V, A, B) Q(vavv, V, A, V, V) Q(vava, V, A, V, A) Q(vavb, V, A, V, B) Q(vaav, V, A, A, V) Q(vaaa, V, A, A, A) Q(vaab, V, A, A, B) Q(vabv, V, A, B, V) Q(vaba, V, A, B, A) Q(vabb, V, A, B, B) Q(vabc, V, A, B, C_) Q(avvv, A, V, V, V) Q(avva, A, V, V, A) Q(avvb, A, V, V, B) Q(avav, A, V, A, V) Q(avaa, A, V, A, A) Q(avab, A, V, A, B) Q(avbv, A, V, B, V) Q(avba, A, V, B, A) Q(avbb, A, V, B, B) Q(avbc, A, V, B, C_) Q(aavv, A, A, V, V) Q(aava, A, A, V, A) Q(aavb, A, A, V, B) Q(aaav, A, A, A, V) Q(aaaa, A, A, A, A) Q(aaab, A, A, A, B) Q(aabv, A, A, B, V) Q(aaba, A, A, B, A) Q(aabb, A, A, B, B) Q(aabc, A, A, B, C_) Q(abvv, A, B, V, V) Q(abva, A, B, V, A) Q(abvb, A, B, V, B) Q(abvc, A, B, V, C_) Q(abav, A, B, A, V) Q(abaa, A, B, A, A) Q(abab, A, B, A, B) Q(abac, A, B, A, C_) Q(abbv, A, B, B, V) Q(abba, A, B, B, A) Q(abbb, A, B, B, B) Q(abbc, A, B, B, C_) Q(abcv, A, B, C_, V) Q(abca, A, B, C_, A) Q(abcb, A, B, C_, B) Q(abcc, A, B, C_, C_)
#define LISTS5(Q) Q(vvvvv, V, V, V, V, V) Q(vvvva, V, V, V, V, A) Q(vvvav, V, V, V, A, V) Q(vvvaa, V, V, V, A, A) Q(vvvab, V, V, V, A, B) Q(vvavv, V, V, A, V, V) Q(vvava, V, V, A, V, A) Q(vvavb, V, V, A, V, B) Q(vvaav, V, V, A, A, V) Q(vvaaa, V, V, A, A, A) Q(vvaab, V, V, A, A, B) Q(vvabv, V, V, A, B, V) Q(vvaba, V, V, A, B, A) Q(vvabb, V, V, A, B, B) Q(vvabc, V, V, A, B, C_) Q(vavvv, V, A, V, V, V) Q(vavva, V, A, V, V, A) Q(vavvb, V, A, V, V, B) Q(vavav, V, A, V, A, V) Q(vavaa, V, A, V, A, A) Q(vavab, V, A, V, A, B) Q(vavbv, V, A, V, B, V) Q(vavba, V, A, V, B, A) Q(vavbb, V, A, V, B, B) Q(vavbc, V, A, V, B, C_) Q(vaavv, V, A, A, V, V) Q(vaava, V, A, A, V, A) Q(vaavb, V, A, A, V, B) Q(vaaav, V, A, A, A, V) Q(vaaaa, V, A, A, A, A) Q(vaaab, V, A, A, A, B) Q(vaabv, V, A, A, B, V) Q(vaaba, V, A, A, B, A) Q(vaabb, V, A, A, B, B) Q(vaabc, V, A, A, B, C_) Q(vabvv, V, A, B, V, V) Q(vabva, V, A, B, V, A) Q(vabvb, V, A, B, V, B) Q(vabvc, V, A, B, V, C_) Q(vabav, V, A, B, A, V) Q(vabaa, V, A, B, A, A) Q(vabab, V, A, B, A, B) Q(vabac, V, A, B, A, C_) Q(vabbv, V, A, B, B, V) Q(vabba, V, A, B, B, A) Q(vabbb, V, A, B, B, B) Q(vabbc, V, A, B, B, C_) Q(vabcv, V, A, B, C_, V) Q(vabca, V, A, B, C_, A) Q(vabcb, V, A, B, C_, B) Q(vabcc, V, A, B, C_, C_) Q(avvvv, A, V, V, V, V) Q(avvva, A, V, V, V, A) Q(avvvb, A, V, V, V, B) Q(avvav, A, V, V, A, V) Q(avvaa, A, V, V, A, A) Q(avvab, A, V, V, A, B) Q(avvbv, A, V, V, B, V) Q(avvba, A, V, V, B, A) Q(avvbb, A, V, V, B, B) Q(avvbc, A, V, V, B, C_) Q(avavv, A, V, A, V, V) Q(avava, A, V, A, V, A) Q(avavb, A, V, A, V, B) Q(avaav, A, V, A, A, V) Q(avaaa, A, V, A, A, A) Q(avaab, A, V, A, A, B) Q(avabv, A, V, A, B, V) Q(avaba, A, V, A, B, A) Q(avabb, A, V, A, B, B) Q(avabc, A, V, A, B, C_) Q(avbvv, A, V, B, V, V) Q(avbva, A, V, B, V, A) Q(avbvb, A, V, B, V, B) Q(avbvc, A, V, B, V, C_) Q(avbav, A, V, B, A, V) Q(avbaa, A, V, B, A, A) Q(avbab, A, V, B, A, B) Q(avbac, A, V, B, A, C_) Q(avbbv, A, V, B, B, V) Q(avbba, A, V, B, B, A) Q(avbbb, A, V, B, B, B) Q(avbbc, A, V, B, B, C_) Q(avbcv, A, V, B, C_, V) Q(avbca, A, V, B, C_, A) Q(avbcb, A, V, B, C_, B) Q(avbcc, A, V, B, C_, C_) Q(aavvv, A, A, V, V, V) Q(aavva, A, A, V, V, A) Q(aavvb, A, A, V, V, B) Q(aavav, A, A, V, A, V) Q(aavaa, A, A, V, A, A) Q(aavab, A, A, V, A, B) Q(aavbv, A, A, V, B, V) Q(aavba, A, A, V, B, A) Q(aavbb, A, A, V, B, B) Q(aavbc, A, A, V, B, C_) Q(aaavv, A, A, A, V, V) Q(aaava, A, A, A, V, A) Q(aaavb, A, A, A, V, B) Q(aaaav, A, A, A, A, V) Q(aaaaa, A, A, A, A, A) Q(aaaab, A, A, A, A, B) Q(aaabv, A, A, A, B, V) Q(aaaba, A, A, A, B, A) Q(aaabb, A, A, A, B, B) Q(aaabc, A, A, A, B, C_) Q(aabvv, A, A, B, V, V) Q(aabva, A, A, B, V, A) Q(aabvb, A, A, B, V, B) Q(aabvc, A, A, B, V, C_) Q(aabav, A, A, B, A, V) Q(aabaa, A, A, B, A, A) Q(aabab, A, A, B, A, B) Q(aabac, A, A, B, A, C_) Q(aabbv, A, A, B, B, V) Q(aabba, A, A, B, B, A) Q(aabbb, A, A, B, B, B) Q(aabbc, A, A, B, B, C_) Q(aabcv, A, A, B, C_, V) Q(aabca, A, A, B, C_, A) Q(aabcb, A, A, B, C_, B) Q(aabcc, A, A, B, C_, C_) Q(abvvv, A, B, V, V, V) Q(abvva, A, B, V, V, A) Q(abvvb, A, B, V, V, B) Q(abvvc, A, B, V, V, C_) Q(abvav, A, B, V, A, V) Q(abvaa, A, B, V, A, A) Q(abvab, A, B, V, A, B) Q(abvac, A, B, V, A, C_) Q(abvbv, A, B, V, B, V) Q(abvba, A, B, V, B, A) Q(abvbb, A, B, V, B, B) Q(abvbc, A, B, V, B, C_) Q(abvcv, A, B, V, C_, V) Q(abvca, A, B, V, C_, A) Q(abvcb, A, B, V, C_, B) Q(abvcc, A, B, V, C_, C_) Q(abavv, A, B, A, V, V) Q(abava, A, B, A, V, A) Q(abavb, A, B, A, V, B) Q(abavc, A, B, A, V, C_) Q(abaav, A, B, A, A, V) Q(abaaa, A, B, A, A, A) Q(abaab, A, B, A, A, B) Q(abaac, A, B, A, A, C_) Q(ababv, A, B, A, B, V) Q(ababa, A, B, A, B, A) Q(ababb, A, B, A, B, B) Q(ababc, A, B, A, B, C_) Q(abacv, A, B, A, C_, V) Q(abaca, A, B, A, C_, A) Q(abacb, A, B, A, C_, B) Q(abacc, A, B, A, C_, C_) Q(abbvv, A, B, B, V, V) Q(abbva, A, B, B, V, A) Q(abbvb, A, B, B, V, B) Q(abbvc, A, B, B, V, C_) Q(abbav, A, B, B, A, V) Q(abbaa, A, B, B, A, A) Q(abbab, A, B, B, A, B) Q(abbac, A, B, B, A, C_) Q(abbbv, A, B, B, B, V) Q(abbba, A, B, B, B, A) Q(abbbb, A, B, B, B, B) Q(abbbc, A, B, B, B, C_) Q(abbcv, A, B, B, C_, V) Q(abbca, A, B, B, C_, A) Q(abbcb, A, B, B, C_, B) Q(abbcc, A, B, B, C_, C_) Q(abcvv, A, B, C_, V, V) Q(abcva, A, B, C_, V, A) Q(abcvb, A, B, C_, V, B) Q(abcvc, A, B, C_, V, C_) Q(abcav, A, B, C_, A, V) Q(abcaa, A, B, C_, A, A) Q(abcab, A, B, C_, A, B) Q(abcac, A, B, C_, A, C_) Q(abcbv, A, B, C_, B, V) Q(abcba, A, B, C_, B, A) Q(abcbb, A, B, C_, B, B) Q(abcbc, A, B, C_, B, C_) Q(abccv, A, B, C_, C_, V) Q(abcca, A, B, C_, C_, A) Q(abccb, A, B, C_, C_, B) Q(abccc, A, B, C_, C_, C_)
