"""Much packed data come out as what was packed."""
from pdfmajor.utils import lzwdecode
from pdfmajor.parser.PDFStream.ccitt import ccittfaxdecode


class Memory(Text):
    """Data that are read like a file."""

    def __init__(self, data=b''):
        Text.__init__(self, data)


def code_lzw_longest():
    """Codes become longer three times."""
    return [lzwdecode(b'\x80\x00\x00\xe0\xf0\xc0\x84V6 \x93KFs\xaa\x11&\xa3Z1Z\xee\xa0\x10XV@+\x1bP\x89\xc5\xab9\xd0\x08\x11\x8f\xcb\x87\x94\xba\xd9\xaa\xf5\r\x8f\x0b\xc8\x15#!\xda\x17\x1e\x99\x11k6\xe0(h_E-\x9caR\x19\xc9B\xd1\x03\x8e\rI\xd6\x80$|sT\xb8\x03\x85Dk\x18\n@=\xad\xde\x83c\xa2\xcd\xe47<.@\x0443((YO\xb9\x86G\xa6\x18D\xb6\xa6x\x90\x91\xed\xc1y\xf9\x9a"9\xb1\x03f\xe6\x08h\xde\xc4\x0f\x9d\x99\xa2\xa4\x1bpv\x96x\x94\x95\xe1\x13{8d\x92y\x96Wb43\xa8\xa8\xb9\x12"\xdeE\xf6@\xd9@\x10=\xb9\xcb,a\xca\xa08\x8c\x01\x1c\xdc\xa5\xd6\x81%|8W\n\x94!\xe4\xb8U\x1e\x0fE\x02\xd1\x00\xa4@1\x16\x10H\x85\xd3"\x15 \xb5d<a\x13\x9a\xa6\'Y\xe4\x10\x93\x11\xab\xc8,\xe3\x0b\xc1\x08\x19U\x10\x1aF\xa0\x12X`\xc50=\xd2c\x06I\x9c\x0c\xa1 \xb7O\xe2\x15\xf9\x8c\x0e\xa7&\xbb\x92\xa3\xd7\x02$f\xd8A\x8b\xda\xc81\x8bi\x129r%H\xefE9l\x1e_\x8e\xa1Y\xbaJ\x89\xa01v:\x86\x079F0\x03\xc6\xb9,+\x02\xc6\x91(+\x03&\xc180\x84\xe7A^;\x87\xe0A\x9aK\x8cAq\xeaa\x12\x02\xf0Z|\x19\x04\xc8\xd6\x1e\x82\x06\xf9fD\x0b\xc1\xa0\x16o\x16\xc4x\xd2!\x83\xc7\xa9\xa2W\x11\x83P\x92\x14\x81\')\x8eT\x91\x83\x80\xa8\x1c\x83\xe0)\xceg\x96\xe5\x01\x14:\x0b\xe2Xn\x12\x02@\x01\xd4m\x19E\xd9ZO\x92D0\xf47\x8c\xa2\xd8\xa4%\x08A\xd8j\x17\x85A0D\x0f\x83\xa0\xd857\x83`\xe8>\x11\x04\xc1P^\x1a\x87b\x10\x94)\x0bc(\xde=\x10\xc4\x91>V\x97fQ\xb4u\x00\x00\x90H\x1b\x89b\xf8\xe8E\x14\x05\xb9\x9es\x80\xa0\xf8r*\x0e\x04aRc\x9c\xa0HR$\x8dDa\\h\x9e\xa0\xf0\x864\x91\xe5\xb1\xbc\x05\x86\x82\xf1\x10Y\x9b\xe0\x80z5\x93&A\xf0\x16\x8b\xc4\x81\x84z\x85\xc3\x11.f\x81\x01\xf8\xeeW\x9d\x018\xc2N\x1b\x00\xc8\xacJ\x1a@\xb0\xacK\x1a\xe0\xf0\xc0Q\x9c\xe1\x80\xea]\x80\xc2i*n\x85c\xa9~\x07\x8be9\xe8#\x92\xa7 rD\x9bA\x89\x06k\x05\xe4\x19\xb0\x19\x91\'\x00zJ\x9d\xc2iN\x03\x8ce\xf8B?\x9b\xa2\tB\x03\x0c\xe6H`I\x9e\xe3\x01\x8a\x18\x12\xc0\x10\xd4i\x08\x05P2B\x1e\x03\t\x9c \x95\xe1\x19&\x04\x0f\'X\xc4j\x89\xc6\x10xY\x05\xa5 BL\x82\xe4\x88 E\x81\x8d\x99\x10\x05\x91@y\x1e\n\x92\xe0\xf1B\x15\x15\xc1\xc1|$\x9a\x02\xe9\xca9\x80D`8T\x07&0\xb2s\x8f`\x81@\x1b\x19\x02\xf9\xe4E\x84\x85\xc8\xa8u\x10\xc1\x19v,\x9ed\x90dg\r\xe0\x89^)\x1e$\xb0vn\x10aQ\x9a;\x03\xe6 \xde\r\x18#p6b\x0ea\x11\x9a?\x05\xe6\xe1\x1e!\x1e%0\xb6\x08\x98c\xd0ds\x13\xe2\xc8(e\x10\xc2\x18\x00\\\x8f\x01\xb9\xe4Y\x8e\x81\xb1\xe8[\x8fb\x00\nc\x11\xa2\xa08p\x15#\x98|\x04\x9a\x04\xe8\xd4\x1c\x00\xe6\x89B9\x08`\xa9\xc6[\x11B\xf8h\x05\x1b\x85\x99\x162\x07\xa0\xb9\xdad\x14\x84\x08\xbc\x1e\x03g\xa9\xaa[\x12\xe3\xc8\xb8\x1f\x84`A\xd0g\x16\xa4\xe1\x086\x8a\xc2\x00V\x0b\x00GQ\xaeb\x96\x85\x19&B\x0e\xa38\xb4&\x88!\xb0V\x10\x83\x00x\x0e\x00\x1e\x87q\xd2r\x1c\x06\xe9\xb4l\x1a\xe6\xb1\xack\x9b\x06\xd1\xbap\x1c\x87I\xdcz H"\x0c\x84!Hb\x1c\x88"H\xa2,\x8c#H\xe2<H\t\x11$$\xc4\xa0\x95\x12\xc2\\L\t\x914&\xc4\xe0\x9d\x13\xc2|P\n\x11D(\xc5 \xa5\x14\xc2\x9cT\n\x91T*\xc5`\xad\x15\xc2\xbcX\x0b\x11d,\xc5\xa0\xb5\x16\xc2\xdc\\\x0b\x91t.\xc5\xe0\xbd\x17\xc2\xfc`\x0c\x11\x840\xc6 \xc5\x18\xc3\x1cd\x0c\x91\x942\xc6`\xcd\x19\xc3<h\r\x11\xa44\xc6\xa0\xd5\x1a\xc3\\l\r\x91\xb46\xc6\xe0\xdd\x1b\xc3|p\x0e\x11\xc48\xc7 \xe5\x1c\xc3\x9ct\x0e\x91\xd4:\xc7`\xed\x1d\xc3\xbcx\x0f\x11\xe4<\xc7\xa0\xf5\x1e\xc3\xdc|\x0f\x91\xf4>\xc7\xe0\xfd\x1f\xc3\xfc\x80\x10\x12\x04@\xc8!\x05 \xc4\x1c\x84\x10\x92\x14B\xc8a\r!\xc4<\x88\x11\x12$D\xc8\xa1\x15"\xc4\\\x8c\x11\x924F\xc8\xe1\x1d#\xc4|\x90\x12\x12DH\xc9!%$\xc4\x9c\x94\x12\x92TJ\xc9a-%\xc4\xbc\x98\x13\x12dL\xc9\xa15&\xc4\xdc\x9c\x13\x92tN\xc9\xe1=\'\xc4\xfc\xa0\x14\x12\x84P\xca!E(\xc5\x1c\xa4\x14\x92\x94R\xcaaM)\xc5<\xa8\x15\x12\xa4T\xca\xa1U*\xc5\\\xac\x15\x92\xb4V\xca\xe1]+\xc5|\xb0\x16\x12\xc4X\xcb!e,\xc5\x9c\xb4\x16\x92\xd4Z\xcbam-\xc5\xbc\xb8\x17\x12\xe4\\\xcb\xa1u.\xc5\xdc\xbc\x17\x92\xf4^\xcb\xe1}/\xc5\xfc\xc0\x18\x13\x04`\xcc!\x850\xc6\x1c\xc4\x18\x93\x14b\xcca\x8d1\xc6<\xc8\x19\x13$d\xcc\xa1\x952\xc6\\\xcc\x19\x934f\xcc\xe1\x9d3\xc6|\xd0\x1a\x13Dh\xcd!\xa54\xc6\x9c\xd4\x1a\x93Tj\xcda\xad5\xc6\xbc\xd8\x1b\x13dl\xcd\xa1\xb56\xc6\xdc\xdc\x1b\x93tn\xcd\xe1\xbd7\xc6\xfc\xe0\x1c\x13\x84p\xce!\xc58\xc7\x1c\xe4\x1c\x93\x94r\xcea\xcd9\xc7<\xe8\x1d\x13\xa4t\xce\xa1\xd5:\xc7\\\xec\x1d\x93\xb4v\xce\xe1\xdd;\xc7|\xf0\x1e\x13\xc4x\xcf!\xe5<\xc7\x9c\xf4\x1e\x93\xd4z\xcfa\xed=\xc7\xbc\xf8\x1f\x13\xe4|\xcf\xa1\xf5>\xc7\xdc\xfc\x08\x19\x05 \xe4$\x85\x90\xd2\x1eDH\x99\x15"\xe4d\x8d\x91\xd2>HI\x19%$\xe4\xa4\x95\x92\xd2^LI\x995&\xe4\xe4\x9d\x93\xd2~PJ\x19E(\xe5$\xa5\x94\xd2\x9eTJ\x99U*\xe5d\xad\x95\xd2\xbeXK\x19e,\xe5\xa4\xb5\x96\xd2\xde\\K\x99u.\xe5\xe4\xbd\x97\xd2\xfe`L\x19\x850\xe6$\xc5\x98\xd3\x1edL\x99\x952\xe6d\xcd\x99\xd3>hM\x19\xa54\xe6\xa4\xd5\x9a\xd3^lYTK7&\xec\xde\x9b\xf3\x82p\xce)\xc79\',\xe6\x9c\xf3\xa2t\xce\xa9\xd7;\'l\xee\x9d\xf3\xc2x\xcf)\xe7=\'\xac\xf6\x9e\xf3\xe2|\xcf\xa9\xf7?\'\xec\xfe\x9f\xf4\x02\x80\xd0*\x07A(-\x06\xa0\xf4"\x84\xd0\xaa\x17C(m\x0e\xa1\xf4B\x88\xd1*\'E(\xad\x16\xa2\xf4b\x8c\xd1\xaa7G(\xed\x1e\xa3\xf4\x82\x90\xd2*GI)-&\xa4\xf4\xa2\x94\xd2\xaaWK)m.\xa5\xf4\xc2\x98\xd3*gM)\xad6\xa6\xf04\x9cS\x9auN\xe9\xe5=\xa7\xd4\xfe\xa0T\x1a\x85P\xea%E\xa8\xd5\x1e\xa4T\x9a\x95R\xeaeM\xa9\xd5>\xa8U\x1a\xa5T\xea\xa5U\xaa\xd5^\xacU\x9a\xb5V\xea\xe5]\xab\xd5~\xb0V\x1a\xc5X\xeb%e\xac\xd5\x9e\xb4V\x9a\xd5Z\xebem\xad\xd5\xbe\xb8W\x1a\xe5\\\xeb\xa5u\xae\xd5\xde\xbcW\x9a\xf5^\xeb\xe5}\xaf\xd5\xfe\xc0X\x1b\x05`\xec%\x85\xb0\xd6\x1e\xc4X\x9b\x15b\xece\x8d\xb1\xd6>\xc8Y\x1b%d\xec\xa4\xdaPf^\xccY\x9b5f\xec\xe5\x9d\xb3\xd6~\xd0Z\x1bEh\xed%\xa5\xb4\xd6\x9e\xd4Z\x9bUj\xede\xad\xb5\xd6\xbe\xd8[\x1bel\xed\xa5\xb5\xb6\xd6\xde\xdc[\x9bun\xed\xe5\xbd\xb7\xd6\xfe\xe0\\\x1b\x85p\xee%\xc5\xb8\xd7\x1e\xe4\\\x9b\x95r\xeee\xcd\xb9\xd7>\xe8]\x1b\xa5t\xee\xa5\xd5\xba\xd7^\xec]\x9b\xb5v\xee\xe5\xdd\xbb\xd7~\xf0^\x1b\xc5x\xef%\xe5\xbc\xd7\x9e\xf4^\x9b\xd5z\xefe\xed\xbd\xd7\xbe\xf8_\x1b\xe5|\xef\xa5\xf5\xbe\xd7\xde\xfckS\xf4\xad\xaf\xde\xb8?\xaa\xe6\xffk\xb4\x00\xaf0\x0c\x94\x90\x10')]


def ref_lzw_longest():
    return [b'\x00\x07\x0f\x18!+6AMZgu\x84\x93\xa3\xb4\xc5\xd7\xea\x02\x16+@Vm\x84\x9c\xb5\xce\xe8\x08#?\\y\x97\xb6\xd5\xf5\x1b<^\x81\xa4\xc8\xed\x17=d\x8b\xb3\xdc\n4_\x8a\xb6\xe3\x15Cr\xa1\xd1\x078j\x9d\xd0\t>s\xa9\xe0\x1cT\x8d\xc6\x05@{\xb7\xf46t\xb3\xf27x\xb9\x00C\x86\xca\x14Y\x9f\xe62z\xc3\x11[\xa6\xf1B\x8f\xdc/~\xcd"s\xc4\x1bn\xc1\x1ao\xc4\x1fv\xcd*\x83\xdc;\x96\xf1R\xaf\x11o\xce2\x92\xf3Y\xbb#\x86\xeaT\xb9$\x8b\xf2_\xc86\xa0\x10{\xe7Y\xc69\xa8\x1c\x8c\x02s\xe5]\xd0I\xbe8\xae*\xa1\x1e\x97\x15\x8f\x0f\x8a\x0b\x88\n\x88\x0c\x8b\x10\x91\x17\x99!\xa4-\xb2<\xc2N\xd5b\xeby\x08\x93#\xafA\xcea\xf0\x84\x19\xaa@\xd2j\x02\x960\xc5`\xf7\x930\xc9g\x06\xa1A\xdd\x7f!\xbfc\x07\xa7M\xee\x95=\xe0\x893\xd8\x83/\xd6\x831\xda\x899\xe4\x95G\xf4\xa7[\x0f\xbfu+\xdd\x95M\x06\xbbu0\xe7\xa3`\x1e\xd7\x96V\x16\xd2\x94V\x19\xd8\x9ca\'\xe8\xafw?\x08\xcd\x97b.\xf5\xc2\x90^-\xf8\xc8\x99k=\x10\xdf\xb3\x88^4\x0b\xde\xb6\x8fiC\x1e\xf5\xd1\xae\x8cjI)\t\xe5\xc7\xa9\x8cpT9\x1f\x05\xe7\xcf\xb7\xa0\x8at_K7$\x12\x00\xea\xda\xca\xbb\xad\x9f\x92\x86zoe[RJB;5/*&"\x1f\x1d\x1b\x1a\x1a\x1a\x1b\x1d\x1f"&*/5;BJR[eoz\x86\x92\x9f\xad\xbb\xca\xda\xea\x00\x12$7K_t\x8a\xa0\xb7\xcf\xe7\x05\x1f9Tp\x8c\xa9\xc7\xe5\t)Ij\x8c\xae\xd1\xf5\x1eCi\x8f\xb6\xde\x0b4^\x88\xb3\xdf\x10=k\x99\xc8\xf8-^\x90\xc2\xf5.b\x97\xcd\x08?w\xaf\xe8\'a\x9c\xd8\x19V\x94\xd2\x16V\x96\xd7\x1e`\xa3\xe70u\xbb\x06M\x95\xdd+u\xbf\x0f[\xa7\xf4G\x95\xe49\x89\xda1\x83\xd6/\x83\xd83\x89\xe0=\x95\xeeM\xa7\x07c\xbf!\x7f\xddA\xa1\x06g\xc90\x93\xf7`\xc50\x96\x02j\xd2@\xaa\x19\x84\xf0a\xceA\xaf#\x93\x08y\xebb\xd5N\xc2<\xb2-\xa4!\x99\x17\x91\x10\x8b\x0c\x88\n\x88\x0b\x8a\x0f\x8f\x15\x97\x1e\xa1*\xae8\xbeI\xd0]\xe5s\x02\x8c\x1c\xa89\xc6Y\xe7{\x10\xa06\xc8_\xf2\x8b$\xb9T\xea\x86#\xbbY\xf3\x922\xceo\x11\xafR\xf1\x96;\xdc\x83*\xcdv\x1f\xc4o\x1a\xc1n\x1b\xc4s"\xcd~/\xdc\x8fB\xf1\xa6[\x11\xc3z2\xe6\x9fY\x14\xca\x86C\x00\xb9x7\xf2\xb3t6\xf4\xb7{@\x05\xc6\x8dT\x1c\xe0\xa9s>\t\xd0\x9dj8\x07\xd1\xa1rC\x15\xe3\xb6\x8a_4\n\xdc\xb3\x8bd=\x17\xed\xc8\xa4\x81^<\x1b\xf5\xd5\xb6\x97y\\?#\x08\xe8\xce\xb5\x9c\x84mV@+\x16\x02\xea\xd7\xc5\xb4\xa3\x93\x84ugZMA6+!\x18\x0f\x07\x00\xf4\xee\xe9\xe4\xe0\xdd\xda\xd8\xd7\xd6\xd6\xd7\xd8\xda\xdd\xe0\xe4\xe9\xee\xf4\x00\x07\x0f\x18!+6AMZgu\x84\x93\xa3\xb4\xc5\xd7\xea\x02\x16+@Vm\x84\x9c\xb5\xce\xe8\x08#?\\y\x97\xb6\xd5\xf5\x1b<^\x81\xa4\xc8\xed\x17=d\x8b\xb3\xdc\n4_\x8a\xb6\xe3\x15Cr\xa1\xd1\x078j\x9d\xd0\t>s\xa9\xe0\x1cT\x8d\xc6\x05@{\xb7\xf46t\xb3\xf27x\xb9\x00C\x86\xca\x14Y\x9f\xe62z\xc3\x11[\xa6\xf1B\x8f\xdc/~\xcd"s\xc4\x1bn\xc1\x1ao\xc4\x1fv\xcd*\x83\xdc;\x96\xf1R\xaf\x11o\xce2\x92\xf3Y\xbb#\x86\xeaT\xb9$\x8b\xf2_\xc86\xa0\x10{\xe7Y\xc69\xa8\x1c\x8c\x02s\xe5]\xd0I\xbe8\xae*\xa1\x1e\x97\x15\x8f\x0f\x8a\x0b\x88\n\x88\x0c\x8b\x10\x91\x17\x99!\xa4-\xb2<\xc2N\xd5b\xeby\x08\x93#\xafA\xcea\xf0\x84\x19\xaa@\xd2j\x02\x960\xc5`\xf7\x930\xc9g\x06\xa1A\xdd\x7f!\xbfc\x07\xa7M\xee\x95=\xe0\x893\xd8\x83/\xd6\x831\xda\x899\xe4\x95G\xf4\xa7[\x0f\xbfu+\xdd\x95M\x06\xbbu0\xe7\xa3`\x1e\xd7\x96V\x16\xd2\x94V\x19\xd8\x9ca\'\xe8\xafw?\x08\xcd\x97b.\xf5\xc2\x90^-\xf8\xc8\x99k=\x10\xdf\xb3\x88^4\x0b\xde\xb6\x8fiC\x1e\xf5\xd1\xae\x8cjI)\t\xe5\xc7\xa9\x8cpT9\x1f\x05\xe7\xcf\xb7\xa0\x8at_K7$\x12\x00\xea\xda\xca\xbb\xad\x9f\x92\x86zoe[RJB;5/*&"\x1f\x1d\x1b\x1a\x1a\x1a\x1b\x1d\x1f"&*/5;BJR[eoz\x86\x92\x9f\xad\xbb\xca\xda\xea\x00\x12$7K_t\x8a\xa0\xb7\xcf\xe7\x05\x1f9Tp\x8c\xa9\xc7\xe5\t)Ij\x8c\xae\xd1\xf5\x1eCi\x8f\xb6\xde\x0b4^\x88\xb3\xdf\x10=k\x99\xc8\xf8-^\x90\xc2\xf5.b\x97\xcd\x08?w\xaf\xe8\'a\x9c\xd8\x19V\x94\xd2\x16V\x96\xd7\x1e`\xa3\xe70u\xbb\x06M\x95\xdd+u\xbf\x0f[\xa7\xf4G\x95\xe49\x89\xda1\x83\xd6/\x83\xd83\x89\xe0=\x95\xeeM\xa7\x07c\xbf!\x7f\xddA\xa1\x06g\xc90\x93\xf7`\xc50\x96\x02j\xd2@\xaa\x19\x84\xf0a\xceA\xaf#\x93\x08y\xebb\xd5N\xc2<\xb2-\xa4!\x99\x17\x91\x10\x8b\x0c\x88\n\x88\x0b\x8a\x0f\x8f\x15\x97\x1e\xa1*\xae8\xbeI\xd0]\xe5s\x02\x8c\x1c\xa89\xc6Y\xe7{\x10\xa06\xc8_\xf2\x8b$\xb9T\xea\x86#\xbbY\xf3\x922\xceo\x11\xafR\xf1\x96;\xdc\x83*\xcdv\x1f\xc4o\x1a\xc1n\x1b\xc4s"\xcd~/\xdc\x8fB\xf1\xa6[\x11\xc3z2\xe6\x9fY\x14\xca\x86C\x00\xb9x7\xf2\xb3t6\xf4\xb7{@\x05\xc6\x8dT\x1c\xe0\xa9s>\t\xd0\x9dj8\x07\xd1\xa1rC\x15\xe3\xb6\x8a_4\n\xdc\xb3\x8bd=\x17\xed\xc8\xa4\x81^<\x1b\xf5\xd5\xb6\x97y\\?#\x08\xe8\xce\xb5\x9c\x84mV@+\x16\x02\xea\xd7\xc5\xb4\xa3\x93\x84ugZMA6+!\x18\x0f\x07\x00\xf4\xee\xe9\xe4\xe0\xdd\xda\xd8\xd7\xd6\xd6\xd7\xd8\xda\xdd\xe0\xe4\xe9\xee\xf4\x00\x07\x0f\x18!+6AMZgu\x84\x93\xa3\xb4\xc5\xd7\xea\x02\x16+@Vm\x84\x9c\xb5\xce\xe8\x08#?\\y\x97\xb6\xd5\xf5\x1b<^\x81\xa4\xc8\xed\x17=d\x8b\xb3\xdc\n4_\x8a\xb6\xe3\x15Cr\xa1\xd1\x078j\x9d\xd0\t>s\xa9\xe0\x1cT\x8d\xc6\x05@{\xb7\xf46t\xb3\xf27x\xb9\x00C\x86\xca\x14Y\x9f\xe62z\xc3\x11[\xa6\xf1B\x8f\xdc/~\xcd"s\xc4\x1bn\xc1\x1ao\xc4\x1fv\xcd*\x83\xdc;\x96\xf1R\xaf\x11o\xce2\x92\xf3Y\xbb#\x86\xeaT\xb9$\x8b\xf2_\xc86\xa0\x10{\xe7Y\xc69\xa8\x1c\x8c\x02s\xe5]\xd0I\xbe8\xae*\xa1\x1e\x97\x15\x8f\x0f\x8a\x0b\x88\n\x88\x0c\x8b\x10\x91\x17\x99!\xa4-\xb2<\xc2N\xd5b\xeby\x08\x93#\xafA\xcea\xf0\x84\x19\xaa@\xd2j\x02\x960\xc5`\xf7\x930\xc9g\x06\xa1A\xdd\x7f!\xbfc\x07\xa7M\xee\x95=\xe0\x893\xd8\x83/\xd6\x831\xda\x899\xe4\x95G\xf4\xa7[\x0f\xbfu+\xdd\x95M\x06\xbbu0\xe7\xa3`\x1e\xd7\x96V\x16\xd2\x94V\x19\xd8\x9ca\'\xe8\xafw?\x08\xcd\x97b.\xf5\xc2\x90^-\xf8\xc8\x99k=\x10\xdf\xb3\x88^4\x0b\xde\xb6\x8fiC\x1e\xf5\xd1\xae\x8cjI)\t\xe5\xc7\xa9\x8cpT9\x1f\x05\xe7\xcf\xb7\xa0\x8at_K7$\x12\x00\xea\xda\xca\xbb\xad\x9f\x92\x86zoe[RJB;5/*&"\x1f\x1d\x1b\x1a\x1a\x1a\x1b\x1d\x1f"&*/5;BJR[eoz\x86\x92\x9f\xad\xbb\xca\xda\xea\x00\x12$7K_t\x8a\xa0\xb7\xcf\xe7\x05\x1f9Tp\x8c\xa9\xc7\xe5\t)Ij\x8c\xae\xd1\xf5\x1eCi\x8f\xb6\xde\x0b4^\x88\xb3\xdf\x10=k\x99\xc8\xf8-^\x90\xc2\xf5.b\x97\xcd\x08?w\xaf\xe8\'a\x9c\xd8\x19V\x94\xd2\x16V\x96\xd7\x1e`\xa3\xe70u\xbb\x06M\x95\xdd+u\xbf\x0f[\xa7\xf4G\x95\xe49\x89\xda1\x83\xd6/\x83\xd83\x89\xe0=\x95\xeeM\xa7\x07c\xbf!\x7f\xddA\xa1\x06g\xc90\x93\xf7`\xc50\x96\x02j\xd2@\xaa\x19\x84\xf0a\xceA\xaf#\x93\x08y\xebb\xd5N\xc2<\xb2-\xa4!\x99\x17\x91\x10\x8b\x0c\x88\n\x88\x0b\x8a\x0f\x8f\x15\x97\x1e\xa1*\xae8\xbeI\xd0]\xe5s\x02\x8c\x1c\xa89\xc6Y\xe7{\x10\xa06\xc8_\xf2\x8b$\xb9T\xea\x86#\xbbY\xf3\x922\xceo\x11\xafR\xf1\x96;\xdc\x83*\xcdv\x1f\xc4o\x1a\xc1n\x1b\xc4s"\xcd~/\xdc\x8fB\xf1\xa6[\x11\xc3z2\xe6\x9fY\x14\xca\x86C\x00\xb9x7\xf2\xb3t6\xf4\xb7{@\x05\xc6\x8dT\x1c\xe0\xa9s>\t\xd0\x9dj8\x07\xd1\xa1rC\x15\xe3\xb6\x8a_4\n\xdc\xb3\x8bd=\x17\xed\xc8\xa4\x81^<\x1b\xf5\xd5\xb6\x97y\\?#\x08\xe8\xce\xb5\x9c\x84mV@+\x16\x02\xea\xd7\xc5\xb4\xa3\x93\x84ugZMA6+!\x18\x0f\x07\x00\xf4\xee\xe9\xe4\xe0\xdd\xda\xd8\xd7\xd6\xd6\xd7\xd8\xda\xdd\xe0\xe4\xe9\xee\xf4\x00\x07\x0f\x18!+6AMZgu\x84\x93\xa3\xb4\xc5\xd7\xea\x02\x16+@Vm\x84\x9c\xb5\xce\xe8\x08#?\\y\x97\xb6\xd5\xf5\x1b<']


def code_fax_long():
    """Long runs of either colour."""
    return [ccittfaxdecode(b';5\r\xc0\x04\x00@', {'K': -1, 'Columns': 64}),
            ccittfaxdecode(b'&\xa0e0\x01\x00\x10', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b';5\x03!\x80\x08\x00\x80', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b'25\x02\xd9\x80\x08\x00\x80', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b'+\x9a\x81h\xc0\x04\x00@', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b'-\xcd@\xaa`\x02\x00 ', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b'&\xc6\xa0T0\x01\x00\x10', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b'&\xe6\xa0S0\x01\x00\x10', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b',\x86\xa0R0\x01\x00\x10', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b',\xa6\xa0w0\x01\x00\x10', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b'-\x06\xa0v0\x01\x00\x10', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b',\xe6\xa0u0\x01\x00\x10', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b',\xc3P:\x18\x00\x80\x08', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b',\xd3P9\x98\x00\x80\x08', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b'-#P9\x18\x00\x80\x08', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b'-3P&\x98\x00\x80\x08', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b'-CP&\x18\x00\x80\x08', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b'-SP%\x98\x00\x80\x08', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b'-cP%\x18\x00\x80\x08', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b'-sP6\x98\x00\x80\x08', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b'-\x83P6\x18\x00\x80\x08', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b'-\x93P50\x01\x00\x10', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b'-\xa3P40\x01\x00\x10', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b'-\xb3P30\x01\x00\x10', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b')\x83P[0\x01\x00\x10', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b')\x93P\xc90\x01\x00\x10', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b')\xa3P\xc80\x01\x00\x10', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b',\x1a\x81\xe6\x00 \x02', {'K': -1, 'Columns': 1733}),
            ccittfaxdecode(b')\xb3S\x00\x10\x01', {'K': -1, 'Columns': 1733})]


def ref_fax_long():
    return [b'\xff\xff\xff\xff\xff\xff\xff\xff',
            b'\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00']


def code_fax_longer():
    """Runs that are longer than pages."""
    return [ccittfaxdecode(b'  \xd6\x00\x10\x01', {'K': -1, 'Columns': 1795}),
            ccittfaxdecode(b' 0\xd6\x00\x10\x01', {'K': -1, 'Columns': 1859}),
            ccittfaxdecode(b' 4\xd6\x00\x10\x01', {'K': -1, 'Columns': 1923}),
            ccittfaxdecode(b' $k\x00\x08\x00\x80', {'K': -1, 'Columns': 1987}),
            ccittfaxdecode(b' &k\x00\x08\x00\x80', {'K': -1, 'Columns': 2051}),
            ccittfaxdecode(b' (k\x00\x08\x00\x80', {'K': -1, 'Columns': 2115}),
            ccittfaxdecode(b' *k\x00\x08\x00\x80', {'K': -1, 'Columns': 2179}),
            ccittfaxdecode(b' ,k\x00\x08\x00\x80', {'K': -1, 'Columns': 2243}),
            ccittfaxdecode(b' .k\x00\x08\x00\x80', {'K': -1, 'Columns': 2307}),
            ccittfaxdecode(b' 8k\x00\x08\x00\x80', {'K': -1, 'Columns': 2371}),
            ccittfaxdecode(b' :k\x00\x08\x00\x80', {'K': -1, 'Columns': 2435}),
            ccittfaxdecode(b' <k\x00\x08\x00\x80', {'K': -1, 'Columns': 2499}),
            ccittfaxdecode(b' >k\x00\x08\x00\x80', {'K': -1, 'Columns': 2563}),
            ccittfaxdecode(b'&\xa0>\x1b\x80\x08\x00\x80', {'K': -1, 'Columns': 2560}),
            ccittfaxdecode(b'.\x03\xe0y\x00\x08\x00\x80', {'K': -1, 'Columns': 2632})]


def ref_fax_longer():
    return [b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00',
            b'\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00',
            b'\xc0\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00']


def code_fax_page():
    """Pages are 1728 pixels wide unless they say so."""
    return [ccittfaxdecode(b'\xc0\x04\x00@', {'K': -1}),
            ccittfaxdecode(b'\x80\x08\x00\x80', {'K': -1})]


def ref_fax_page():
    return [b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff',
            b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff']


def code_lzw_run():
    """Runs may be as long as there are codes for them."""
    return [lzwdecode(b'\x80\x10`P8$\x16\r\x07\x84BaP\xb8d6\x1d\x0f\x88DbQ8\xa4V-\x17\x8cFcQ\xb8\xe4v=\x1f\x90HdR9$\x96M\'\x94JeR\xb9d\xb6]/\x98LfS9\xa4\xd6m7\x9cNgS\xb9\xe4\xf6}?\xa0PhT:%\x16\x8dG\xa4RiT\xbae6\x9dO\xa8TjU:\xa5V\xadW\xacVkU\xba\xe5v\xbd_\xb0XlV;%\x96\xcdg\xb4ZmV\xbbe\xb6\xddo\xb8\\nW;\xa5\xd6\xedw\xbc^oW\xbb\xe5\xf6\xfd\x7f\xc0`pX<&\x17\r\x87\xc4bqX\xbcf7\x1d\x8f\xc8drY<\xa6W-\x97\xccfsY\xbc\xe6w=\x9f\xd0htZ=&\x97M\xa7\xd4juZ\xbdf\xb7]\xaf\xd8lv[=\xa6\xd7m\xb7\xdcnw[\xbd\xe6\xf7}\xbf\xe0px\\>\'\x17\x8d\xc7\xe4ry\\\xbeg7\x9d\xcf\xe8tz]>\xa7W\xad\xd7\xecv{]\xbe\xe7w\xbd\xdf\xf0x|^?\'\x97\xcd\xe7\xf4z}^\xbfg\xb7\xdd\xef\xf8|~_?\xa7\xd7\xed\xf7\xfc~\x7f_\xbf\xe7\xf7\xfc\xff\xc0\x10\x0c\x05\x01\xc0\x90,\r\x03\xc1\x10L\x15\x05\xc1\x90l\x1d\x07\xc2\x10\x8c%\t\xc2\x90\xac-\x0b\xc3\x10\xcc5\r\xc3\x90\xec=\x0f\xc4\x11\x0cE\x11\xc4\x91,M\x13\xc5\x11LU\x15\xc5\x91l]\x17\xc6\x11\x8ce\x19\xc6\x91\xacm\x1b\xc7\x11\xccu\x1d\xc7\x91\xec}\x1f\xc8\x12\x0c\x85!\xc8\x92,\x8d#\xc9\x12L\x95%\xc9\x92l\x9d\'\xca\x12\x8c\xa5)\xca\x92\xac\xad+\xcb\x12\xcc\xb5-\xcb\x92\xec\xbd/\xcc\x13\x0c\xc51\xcc\x93,\xcd3\xcd\x13L\xd55\xcd\x93l\xdd7\xce\x13\x8c\xe59\xce\x93\xac\xed;\xcf\x13\xcc\xf5=\xcf\x93\xec\xfd?\xd0\x14\r\x05A\xd0\x94-\rC\xd1\x14M\x15E\xd1\x94m\x1dG\xd2\x14\x8d%I\xd2\x94\xad-K\xd3\x14\xcd5M\xd3\x94\xed=O\xd4\x15\rEQ\xd4\x95-MS\xd5\x15MUU\xd5\x95m]W\xd6\x15\x8deY\xd6\x95\xadm[\xd7\x15\xcdu]\xd7\x95\xed}_\xd8\x16\r\x85a\xd8\x96-\x8dc\xd9\x16M\x95e\xd9\x96m\x9dg\xda\x16\x8d\xa5i\xda\x96\xad\xadk\xdb\x16\xcd\xb5m\xdb\x96\xed\xbdo\xdc\x17\r\xc5q\xdc\x97-\xcds\xdd\x17M\xd5u\xdd\x97m\xddw\xde\x17\x8d\xe5y\xde\x97\xad\xed{\xdf\x17\xcd\xf5}\xdf\x97\xed\xfd\x7f\xe0\x18\x0e\x05\x81\xe0\x98.\r\x83\xe1\x18N\x15\x85\xe1\x98n\x1d\x87\xe2\x18\x8e%\x89\xe2\x98\xae-\x8b\xe3\x18\xce5\x8d\xe3\x98\xee=\x8f\xe4\x19\x0eE\x91\xe4\x99.M\x93\xe5\x19NU\x95\xe5\x99n]\x97\xe6\x19\x8ee\x99\xe6\x99\xaem\x9b\xe7\x19\xceu\x9d\xe7\x99\xee}\x9f\xe8\x1a\x0e\x85\xa1\xe8\x9a.\x8d\xa3\xe9\x1aN\x95\xa5\xe9\x9an\x9d\xa7\xea\x1a\x8e\xa5\xa9\xea\x9a\xae\xad\xab\xeb\x1a\xce\xb5\xad\xeb\x9a\xee\xbd\xaf\xec\x1b\x0e\xc5\xb1\xec\x9b.\xcd\xb3\xed\x1bN\xd5\xb5\xed\x9bn\xdd\xb7\xee\x1b\x8e\xe5\xb9\xee\x9b\xae\xed\xbb\xef\x1b\xce\xf5\xbd\xef\x9b\xee\xfd\xbf\xf0\x1c\x0f\x05\xc1\xf0\x9c/\r\xc3\xf1\x1cO\x15\xc5\xf1\x9co\x1d\xc7\xf2\x1c\x8f%\xc9\xf2\x9c\xaf-\xcb\xf3\x1c\xcf5\xcd\xf3\x9c\xef=\xcf\xf4\x1d\x0fE\xd1\xf4\x9d/M\xd3\xf5\x1dOU\xd5\xf5\x9do]\xd7\xf6\x1d\x8fe\xd9\xf6\x9d\xafm\xdb\xf7\x1d\xcfu\xdd\xf7\x9d\xef}\xdf\xf8\x1e\x0f\x85\xe1\xf8\x9e/\x8d\xe3\xf9\x1eO\x95\xe5\xf9\x9eo\x9d\xe7\xfa\x1e\x8f\xa5\xe9\xfa\x9e\xaf\xad\xeb\xfb\x1e\xcf\xb5\xed\xfb\x9e\xef\xbd\xef\xfc\x1f\x0f\xc5\xf1\xfc\x9f/\xcd\xf3\xfd\x1fO\xd5\xf5\xfd\x9fo\xdd\xf7\xfe\x1f\x8f\xe5\xf9\xfe\x9f\xaf\xed\xfb\xff\x1f\xcf\xf5\xfd\xff\x9f\xef\xfc\xff\xe0\x04\x01\x80P\x0e\x02@X\r\x01\xe0D\t\x81P.\x06@\xd8\x1d\x03\xe0\x84\x11\x82PN\nAX-\x05\xe0\xc4\x19\x83Pn\x0eA\xd8=\x07\xe1\x04!\x84P\x8e\x12BXM\t\xe1D)\x85P\xae\x16B\xd8]\x0b\xe1\x841\x86P\xce\x1aCXm\r\xe1\xc49\x87P\xee\x1eC\xd8}\x0f\xe2\x04A\x88Q\x0e"DX\x8d\x11\xe2DI\x89Q.&D\xd8\x9d\x13\xe2\x84Q\x8aQN*EX\xad\x15\xe2\xc4Y\x8bQn.E\xd8\xbd\x17\xe3\x04a\x8cQ\x8e2FX\xcd\x19\xe3Di\x8dQ\xae6F\xd8\xdd\x1b\xe3\x84q\x8eQ\xce:GX\xed\x1d\xe3\xc4y\x8fQ\xee>G\xd8\xfd\x1f\xe4\x04\x81\x90R\x0eBHY\r!\xe4D\x89\x91R.FH\xd9\x1d#\xe4\x84\x91\x92RNJIY-%\xe4\xc4\x99\x93RnNI\xd9=\'\xe5\x04\xa1\x94R\x8eRJYM)\xe5D\xa9\x95R\xaeVJ\xd9]+\xe5\x84\xb1\x96R\xceZKYm-\xe5\xc4\xb9\x97R\xee^K\xd9}/\xe6\x04\xc1\x98S\x0ebLY\x8d1\xe6D\xc9\x99S.fL\xd9\x9d3\xe6\x84\xd1\x9aSNjMY\xad5\xe6\xc4\xd9\x9bSnnM\xd9\xbd7\xe7\x04\xe1\x9cS\x8erNY\xcd9\xe7D\xe9\x9dS\xaevN\xd9\xdd;\xe7\x84\xf1\x9eS\xcezOY\xed=\xe7\xc4\xf9\x9fS\xee~O\xd9\xfd?\xe8\x05\x01\xa0T\x0e\x82PZ\rA\xe8E\t\xa1T.\x86P\xda\x1dC\xe8\x85\x11\xa2TN\x8aQZ-E\xe8\xc5\x19\xa3Tn\x8eQ\xda=G\xe9\x05!\xa4T\x8e\x92RZMI\xe9E)\xa5T\xae\x96R\xda]K\xe9\x851\xa6T\xce\x9aSZmM\xe9\xc59\xa7T\xee\x9eS\xda}O\xea\x05A\xa8U\x0e\xa2TZ\x8dQ\xeaEI\xa9U.\xa6\x10\x10')]


def ref_lzw_run():
    return [b'A' * 4096 * 147 + b'A' * 3438]
