//! The published partition-type GUIDs (UEFI specification, Discoverable Partitions
//! Specification, vendor documentation) under the names the crate gives them, as listed when
//! this harness was written and checked against the published values.

use gpt::partition_types::{self as t, OperatingSystem as Os, Type};

/// (name, GUID, operating-system label)
pub const KNOWN: &[(&str, &str, Os)] = &[
    ("UNUSED", "00000000-0000-0000-0000-000000000000", Os::None),
    ("MBR", "024DEE41-33E7-11D3-9D69-0008C781F39F", Os::None),
    ("EFI", "C12A7328-F81F-11D2-BA4B-00A0C93EC93B", Os::None),
    ("BIOS", "21686148-6449-6E6F-744E-656564454649", Os::None),
    ("FLASH", "D3BFE2DE-3DAF-11DF-BA40-E3A556D89593", Os::None),
    ("SONY_BOOT", "F4019732-066E-4E12-8273-346C5641494F", Os::None),
    ("LENOVO_BOOT", "BFBFAFE7-A34F-448A-9A5B-6213EB736C22", Os::None),
    ("MICROSOFT_RESERVED", "E3C9E316-0B5C-4DB8-817D-F92DF00215AE", Os::Windows),
    ("BASIC", "EBD0A0A2-B9E5-4433-87C0-68B6B72699C7", Os::Windows),
    ("WINDOWS_METADATA", "5808C8AA-7E8F-42E0-85D2-E1E90434CFB3", Os::Windows),
    ("WINDOWS_DATA", "AF9B60A0-1431-4F62-BC68-3311714A69AD", Os::Windows),
    ("WINDOWS_RECOVERY", "DE94BBA4-06D1-4D40-A16A-BFD50179D6AC", Os::Windows),
    ("WINDOWS_PARALLEL", "37AFFC90-EF7D-4E96-91C3-2D7AE055B174", Os::Windows),
    ("WINDOWS_STORAGESPACES", "E75CAF8F-F680-4CEE-AFA3-B001E56EFC2D", Os::Windows),
    ("HPUNIX_DATA", "75894C1E-3AEB-11D3-B7C1-7B03A0000000", Os::HpUnix),
    ("HPUNIX_SERVICE", "E2A1E728-32E3-11D6-A682-7B03A0000000", Os::HpUnix),
    ("LINUX_FS", "0FC63DAF-8483-4772-8E79-3D69D8477DE4", Os::Linux),
    ("LINUX_RAID", "A19D880F-05FC-4D3B-A006-743F0F84911E", Os::Linux),
    ("LINUX_ROOT_X86", "44479540-F297-41B2-9AF7-D131D5F0458A", Os::Linux),
    ("LINUX_ROOT_X64", "4F68BCE3-E8CD-4DB1-96E7-FBCAF984B709", Os::Linux),
    ("LINUX_ROOT_ARM_32", "69DAD710-2CE4-4E3C-B16C-21A1D49ABED3", Os::Linux),
    ("LINUX_ROOT_ARM_64", "B921B045-1DF0-41C3-AF44-4C6F280D3FAE", Os::Linux),
    ("LINUX_SWAP", "0657FD6D-A4AB-43C4-84E5-0933C84B4F4F", Os::Linux),
    ("LINUX_LVM", "E6D6D379-F507-44C2-A23C-238F2A3DF928", Os::Linux),
    ("LINUX_HOME", "933AC7E1-2EB4-4F13-B844-0E14E2AEF915", Os::Linux),
    ("LINUX_SRV", "3B8F8425-20E0-4F3B-907F-1A25A76F98E8", Os::Linux),
    ("LINUX_DMCRYPT", "7FFEC5C9-2D00-49B7-8941-3EA10A5586B7", Os::Linux),
    ("LINUX_LUKS", "CA7D7CCB-63ED-4C53-861C-1742536059CC", Os::Linux),
    ("LINUX_RESERVED", "8DA63339-0007-60C0-C436-083AC8230908", Os::Linux),
    ("FREEBSD_DATA", "516E7CB4-6ECF-11D6-8FF8-00022D09712B", Os::FreeBsd),
    ("FREEBSD_BOOT", "83BD6B9D-7F41-11DC-BE0B-001560B84F0F", Os::FreeBsd),
    ("FREEBSD_SWAP", "516E7CB5-6ECF-11D6-8FF8-00022D09712B", Os::FreeBsd),
    ("FREEBSD_UFS", "516E7CB6-6ECF-11D6-8FF8-00022D09712B", Os::FreeBsd),
    ("FREEBSD_VINIUM", "516E7CB8-6ECF-11D6-8FF8-00022D09712B", Os::FreeBsd),
    ("FREEBSD_ZFS", "516E7CBA-6ECF-11D6-8FF8-00022D09712B", Os::FreeBsd),
    ("DRAGONFLY_DATA", "3D48CE54-1D16-11DC-8696-01301BB8A9F5", Os::DragonFlyBsd),
    ("MACOS_HFSPLUS", "48465300-0000-11AA-AA11-00306543ECAC", Os::MacOs),
    ("MACOS_UFS", "55465300-0000-11AA-AA11-00306543ECAC", Os::MacOs),
    ("MACOS_ZFS", "6A898CC3-1DD2-11B2-99A6-080020736631", Os::MacOs),
    ("MACOS_RAID", "52414944-0000-11AA-AA11-00306543ECAC", Os::MacOs),
    ("MACOS_RAID_OFFLINE", "52414944-5F4F-11AA-AA11-00306543ECAC", Os::MacOs),
    ("MACOS_RECOVERY", "426F6F74-0000-11AA-AA11-00306543ECAC", Os::MacOs),
    ("MACOS_LABEL", "4C616265-6C00-11AA-AA11-00306543ECAC", Os::MacOs),
    ("MACOS_TV_RECOVERY", "5265636F-7665-11AA-AA11-00306543ECAC", Os::MacOs),
    ("MACOS_CORE", "53746F72-6167-11AA-AA11-00306543ECAC", Os::MacOs),
    ("MACOS_SOFTRAID_STATUS", "B6FA30DA-92D2-4A9A-96F1-871EC6486200", Os::MacOs),
    ("MACOS_SOFTRAID_SCRATCH", "2E313465-19B9-463F-8126-8A7993773801", Os::MacOs),
    ("MACOS_SOFTRAID_VOLUME", "FA709C7E-65B1-4593-BFD5-E71D61DE9B02", Os::MacOs),
    ("MACOS_SOFTRAID_CACHE", "BBBA6DF5-F46F-4A89-8F59-8765B2727503", Os::MacOs),
    ("MACOS_APFS", "7C3457EF-0000-11AA-AA11-00306543ECAC", Os::MacOs),
    ("SOLARIS_BOOT", "6A82CB45-1DD2-11B2-99A6-080020736631", Os::Solaris),
    ("SOLARIS_ROOT", "6A85CF4D-1DD2-11B2-99A6-080020736631", Os::Solaris),
    ("SOLARIS_SWAP", "6A87C46F-1DD2-11B2-99A6-080020736631", Os::Solaris),
    ("SOLARIS_BACKUP", "6A8B642B-1DD2-11B2-99A6-080020736631", Os::Solaris),
    ("SOLARIS_VAR", "6A8EF2E9-1DD2-11B2-99A6-080020736631", Os::Solaris),
    ("SOLARIS_HOME", "6A90BA39-1DD2-11B2-99A6-080020736631", Os::Solaris),
    ("SOLARIS_ALT", "6A9283A5-1DD2-11B2-99A6-080020736631", Os::Solaris),
    ("SOLARIS_RESERVED1", "6A945A3B-1DD2-11B2-99A6-080020736631", Os::Solaris),
    ("SOLARIS_RESERVED2", "6A9630D1-1DD2-11B2-99A6-080020736631", Os::Solaris),
    ("SOLARIS_RESERVED3", "6A980767-1DD2-11B2-99A6-080020736631", Os::Solaris),
    ("SOLARIS_RESERVED4", "6A96237F-1DD2-11B2-99A6-080020736631", Os::Solaris),
    ("SOLARIS_RESERVED5", "6A8D2AC7-1DD2-11B2-99A6-080020736631", Os::Solaris),
    ("NETBSD_SWAP", "49F48D32-B10E-11DC-B99B-0019D1879648", Os::NetBsd),
    ("NETBSD_FFS", "49F48D5A-B10E-11DC-B99B-0019D1879648", Os::NetBsd),
    ("NETBSD_LFS", "49F48D82-B10E-11DC-B99B-0019D1879648", Os::NetBsd),
    ("NETBSD_RAID", "49F48DAA-B10E-11DC-B99B-0019D1879648", Os::NetBsd),
    ("NETBSD_CONCAT", "2DB519C4-B10F-11DC-B99B-0019D1879648", Os::NetBsd),
    ("NETBSD_ENCRYPTED", "2DB519EC-B10F-11DC-B99B-0019D1879648", Os::NetBsd),
    ("CHROME_KERNEL", "FE3A2A5D-4F32-41A7-B725-ACCC3285A309", Os::Chrome),
    ("CHROME_ROOTFS", "3CB8E202-3B7E-47DD-8A3C-7FF2A13CFCEC", Os::Chrome),
    ("CHROME_FUTURE", "2E0A753D-9E48-43B0-8337-B15192CB1B5E", Os::Chrome),
    ("CHROME_RWFW", "CAB6E88E-ABF3-4102-A07A-D4BB9BE3C1D3", Os::Chrome),
    ("COREOS_USR", "5DFBF5F4-2848-4BAC-AA5E-0D9A20B745A6", Os::CoreOs),
    ("COREOS_ROOTFS_RESIZE", "3884DD41-8582-4404-B9A8-E9B84F2DF50E", Os::CoreOs),
    ("COREOS_OEM", "C95DC21A-DF0E-4340-8D7B-26CBFA9A03E0", Os::CoreOs),
    ("COREOS_ROOT_RAID", "BE9067B9-EA49-4F15-B4F6-F36F8C9E1818", Os::CoreOs),
    ("HAIKU_BFS", "42465331-3BA3-10F1-802A-4861696B7521", Os::Haiku),
    ("MIDNIGHT_BOOT", "85D5E45E-237C-11E1-B4B3-E89A8F7FC3A7", Os::MidnightBsd),
    ("MIDNIGHT_DATA", "85D5E45A-237C-11E1-B4B3-E89A8F7FC3A7", Os::MidnightBsd),
    ("MIDNIGHT_SWAP", "85D5E45B-237C-11E1-B4B3-E89A8F7FC3A7", Os::MidnightBsd),
    ("MIDNIGHT_UFS", "0394EF8B-237E-11E1-B4B3-E89A8F7FC3A7", Os::MidnightBsd),
    ("MIDNIGHT_VINIUM", "85D5E45C-237C-11E1-B4B3-E89A8F7FC3A7", Os::MidnightBsd),
    ("MIDNIGHT_ZFS", "85D5E45D-237C-11E1-B4B3-E89A8F7FC3A7", Os::MidnightBsd),
    ("CEPH_JOURNAL", "45B0969E-9B03-4F30-B4C6-B4B80CEFF106", Os::Ceph),
    ("CEPH_CRYPT_JOURNAL", "45B0969E-9B03-4F30-B4C6-5EC00CEFF106", Os::Ceph),
    ("CEPH_OSD", "4FBD7E29-9D25-41B8-AFD0-062C0CEFF05D", Os::Ceph),
    ("CEPH_CRYPT", "4FBD7E29-9D25-41B8-AFD0-5EC00CEFF05D", Os::Ceph),
    ("CEPH_DISK_CREATION", "89C57F98-2FE5-4DC0-89C1-F3AD0CEFF2BE", Os::Ceph),
    ("CEPH_CRYPT_CREATION", "89C57F98-2FE5-4DC0-89C1-5EC00CEFF2BE", Os::Ceph),
    ("OPENBSD_DATA", "824CC7A0-36A8-11E3-890A-952519AD3F61", Os::OpenBsd),
    ("QNX_FS", "CEF5A9AD-73BC-4601-89F3-CDEEEEE321A1", Os::QNX),
    ("PLAN9_PART", "C91818F9-8025-47AF-89D2-F030D7000C2C", Os::Plan9),
    ("VMWARE_COREDUMP", "9D275380-40AD-11DB-BF97-000C2911D1B8", Os::VmWare),
    ("VMWARE_VMFS", "AA31E02A-400F-11DB-9590-000C2911D1B8", Os::VmWare),
    ("VMWARE_RESERVED", "9198EFFC-31C0-11DB-8F78-000C2911D1B8", Os::VmWare),
    ("ANDROID_BOOTLOADER", "2568845D-2332-4675-BC39-8FA5A4748D15", Os::Android),
    ("ANDROID_BOOTLOADER2", "114EAFFE-1552-4022-B26E-9B053604CF84", Os::Android),
    ("ANDROID_BOOT", "49A4D17F-93A3-45C1-A0DE-F50B2EBE2599", Os::Android),
    ("ANDROID_RECOVERY", "4177C722-9E92-4AAB-8644-43502BFD5506", Os::Android),
    ("ANDROID_MISC", "EF32A33B-A409-486C-9141-9FFB711F6266", Os::Android),
    ("ANDROID_META", "20AC26BE-20B7-11E3-84C5-6CFDB94711E9", Os::Android),
    ("ANDROID_SYSTEM", "38F428E6-D326-425D-9140-6E0EA133647C", Os::Android),
    ("ANDROID_CACHE", "A893EF21-E428-470A-9E55-0668FD91A2D9", Os::Android),
    ("ANDROID_DATA", "DC76DDA9-5AC1-491C-AF42-A82591580C0D", Os::Android),
    ("ANDROID_PERSISTENT", "EBC597D0-2053-4B15-8B64-E0AAC75F4DB1", Os::Android),
    ("ANDROID_FACTORY", "8F68CC74-C5E5-48DA-BE91-A0C8C15E9C80", Os::Android),
    ("ANDROID_FASTBOOT", "767941D0-2085-11E3-AD3B-6CFDB94711E9", Os::Android),
    ("ANDROID_OEM", "AC6D7924-EB71-4DF8-B48D-E267B27148FF", Os::Android),
    ("ONIE_BOOT", "7412F7D5-A156-4B13-81DC-867174929325", Os::Onie),
    ("ONIE_CONFIG", "D4E6E2CD-4469-46F3-B5CB-1BFF57AFC149", Os::Onie),
    ("PPC_BOOT", "9E1A2D38-C612-4316-AA26-8B49521E5A8B", Os::PowerPc),
    ("FREEDESK_BOOT", "BC13C2FF-59E6-4262-A352-B275FD6F7172", Os::FreeDesktop),
    ("ATARI_DATA", "734E5AFE-F61A-11E6-BC64-92361F002671", Os::Atari),
];

/// The crate's constant with that index.
pub fn konst(i: usize) -> Type {
    match i {
        0 => t::UNUSED,
        1 => t::MBR,
        2 => t::EFI,
        3 => t::BIOS,
        4 => t::FLASH,
        5 => t::SONY_BOOT,
        6 => t::LENOVO_BOOT,
        7 => t::MICROSOFT_RESERVED,
        8 => t::BASIC,
        9 => t::WINDOWS_METADATA,
        10 => t::WINDOWS_DATA,
        11 => t::WINDOWS_RECOVERY,
        12 => t::WINDOWS_PARALLEL,
        13 => t::WINDOWS_STORAGESPACES,
        14 => t::HPUNIX_DATA,
        15 => t::HPUNIX_SERVICE,
        16 => t::LINUX_FS,
        17 => t::LINUX_RAID,
        18 => t::LINUX_ROOT_X86,
        19 => t::LINUX_ROOT_X64,
        20 => t::LINUX_ROOT_ARM_32,
        21 => t::LINUX_ROOT_ARM_64,
        22 => t::LINUX_SWAP,
        23 => t::LINUX_LVM,
        24 => t::LINUX_HOME,
        25 => t::LINUX_SRV,
        26 => t::LINUX_DMCRYPT,
        27 => t::LINUX_LUKS,
        28 => t::LINUX_RESERVED,
        29 => t::FREEBSD_DATA,
        30 => t::FREEBSD_BOOT,
        31 => t::FREEBSD_SWAP,
        32 => t::FREEBSD_UFS,
        33 => t::FREEBSD_VINIUM,
        34 => t::FREEBSD_ZFS,
        35 => t::DRAGONFLY_DATA,
        36 => t::MACOS_HFSPLUS,
        37 => t::MACOS_UFS,
        38 => t::MACOS_ZFS,
        39 => t::MACOS_RAID,
        40 => t::MACOS_RAID_OFFLINE,
        41 => t::MACOS_RECOVERY,
        42 => t::MACOS_LABEL,
        43 => t::MACOS_TV_RECOVERY,
        44 => t::MACOS_CORE,
        45 => t::MACOS_SOFTRAID_STATUS,
        46 => t::MACOS_SOFTRAID_SCRATCH,
        47 => t::MACOS_SOFTRAID_VOLUME,
        48 => t::MACOS_SOFTRAID_CACHE,
        49 => t::MACOS_APFS,
        50 => t::SOLARIS_BOOT,
        51 => t::SOLARIS_ROOT,
        52 => t::SOLARIS_SWAP,
        53 => t::SOLARIS_BACKUP,
        54 => t::SOLARIS_VAR,
        55 => t::SOLARIS_HOME,
        56 => t::SOLARIS_ALT,
        57 => t::SOLARIS_RESERVED1,
        58 => t::SOLARIS_RESERVED2,
        59 => t::SOLARIS_RESERVED3,
        60 => t::SOLARIS_RESERVED4,
        61 => t::SOLARIS_RESERVED5,
        62 => t::NETBSD_SWAP,
        63 => t::NETBSD_FFS,
        64 => t::NETBSD_LFS,
        65 => t::NETBSD_RAID,
        66 => t::NETBSD_CONCAT,
        67 => t::NETBSD_ENCRYPTED,
        68 => t::CHROME_KERNEL,
        69 => t::CHROME_ROOTFS,
        70 => t::CHROME_FUTURE,
        71 => t::CHROME_RWFW,
        72 => t::COREOS_USR,
        73 => t::COREOS_ROOTFS_RESIZE,
        74 => t::COREOS_OEM,
        75 => t::COREOS_ROOT_RAID,
        76 => t::HAIKU_BFS,
        77 => t::MIDNIGHT_BOOT,
        78 => t::MIDNIGHT_DATA,
        79 => t::MIDNIGHT_SWAP,
        80 => t::MIDNIGHT_UFS,
        81 => t::MIDNIGHT_VINIUM,
        82 => t::MIDNIGHT_ZFS,
        83 => t::CEPH_JOURNAL,
        84 => t::CEPH_CRYPT_JOURNAL,
        85 => t::CEPH_OSD,
        86 => t::CEPH_CRYPT,
        87 => t::CEPH_DISK_CREATION,
        88 => t::CEPH_CRYPT_CREATION,
        89 => t::OPENBSD_DATA,
        90 => t::QNX_FS,
        91 => t::PLAN9_PART,
        92 => t::VMWARE_COREDUMP,
        93 => t::VMWARE_VMFS,
        94 => t::VMWARE_RESERVED,
        95 => t::ANDROID_BOOTLOADER,
        96 => t::ANDROID_BOOTLOADER2,
        97 => t::ANDROID_BOOT,
        98 => t::ANDROID_RECOVERY,
        99 => t::ANDROID_MISC,
        100 => t::ANDROID_META,
        101 => t::ANDROID_SYSTEM,
        102 => t::ANDROID_CACHE,
        103 => t::ANDROID_DATA,
        104 => t::ANDROID_PERSISTENT,
        105 => t::ANDROID_FACTORY,
        106 => t::ANDROID_FASTBOOT,
        107 => t::ANDROID_OEM,
        108 => t::ONIE_BOOT,
        109 => t::ONIE_CONFIG,
        110 => t::PPC_BOOT,
        111 => t::FREEDESK_BOOT,
        112 => t::ATARI_DATA,
        _ => unreachable!(),
    }
}
