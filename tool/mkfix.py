"""The fixed defects (source of known_findings.json and the Findings section of DESIGN.md)."""
FIXED = [
    ('C13', '978ebda', 'MurmurHash3: the tail cases broke out instead of falling through, so trailing bytes did not reach the digest'),
    ('C13', 'ca8e42d', 'MurmurHash3::hash read past the end of the decimal string of the number, digests depended on stray bytes'),
    ('C01', 'f8700f1', 'EOPSIClient::isAuthorised dereferenced null for a sender that is not registered'),
    ('C01', 'b4d4648', 'receive(nullptr) dereferenced null in client and server'),
    ('C18', '210a2f6', 'EOPSIClient kept pointers to t and q after freeing or giving them away (double release on a second computation)'),
    ('C04', '37b35d6', 'receive() read past the end of short payloads (party identifiers, field elements)'),
    ('C03', '4c6b929', 'a cloud computation request about an unknown party or data never outsourced dereferenced null / used an empty matrix'),
    ('C19', 'a68984b', 'the server released the payload and left the pointer attached to the message'),
    ('C10', '22853f9', 'HashBuckets insertions other than one ignored the maximum load; the element count was not kept'),
    ('C19', '8ad0565', 'HashBuckets::setHashAlgorithm leaked the previous StrInt; HashTable took a copy of the algorithm'),
    ('C09', 'd29328e', 'element 0 in the intersection was dropped (NumTwos(0) is 0, read as valid)'),
    ('C20', '4a17bcd', 'the name of a SHA object indexed past a string literal'),
    ('C14', 'edc9b07', 'ZZPRF with bits==0 shifted by 8 or more and lost generated bits'),
    ('C22', '30054b9', 'readableDigest used an unset pointer after a caught bad_alloc'),
    ('C28', '73ae3b3', 'EOPSIClient::rawDataBits was read before it was ever written'),
    ('C29', '9985529', 'ZZpPolynomials::findIntersection used factor pairs of an earlier set of polynomials'),
    ('C29', '1c3d3a9', 'ZZpPolynomials::findIntersection still used factor pairs of earlier polynomials when as many were interpolated again'),
    ('C19', '67a9b87', 'copies of SHA, PseudoRandom and ZZPRF released the same memory twice'),
    ('C19', 'a3c66d0', 'owning classes could be copied, releasing the same memory twice'),
    ('C23', '75d1bf3', 'StrInt::getByteSize counted bits; toBytes wrote past its buffer'),
    ('C23', '75857e3', 'StrInt::lsb and StrInt::set of no bytes gave wrong numbers'),
    ('C21', '4da2bdb', 'SimpleBenchmark::benchmark with fewer than two times indexed before the start'),
    ('C21', '99720b9', 'SimpleBenchmark statistics divided by zero without an interval and dropped pauses'),
    ('C32', '507250b', 'HashBuckets::printStats cut differences to whole numbers before it squared them, so the deviation of sizes 1 and 2 came out as 0'),
    ('C27', '79ecbd1', 'changing the field or the degree of a party left its generator modulus and its unknowns behind'),
]
