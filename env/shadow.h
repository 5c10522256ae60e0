/* generated from /repo/libzdb/index.h: same layout, room for the id */
typedef struct zvs_index_entry_t {
        // linked list pointer
        struct index_entry_t *next;

        // pointer to source namespace
        // index should not be aware of his namespace
        // but since we use a single big index, we need to
        // be able to make namespace distinction
        // note: another approch could be separate branch-list per namespace
        // note 2: we keep a void pointer, we will only compare address and not
        //         the object itself, this make some opacity later if we change
        //         and reduce issue with circular inclusion
        void *namespace;

        uint8_t idlength;    // length of the id, here uint8_t limits to 256 bytes
        uint32_t offset;     // offset on the corresponding datafile
        uint32_t idxoffset;  // offset on the index file (index file id is the same as data file)
        uint32_t length;     // length of the payload on the datafile
        uint8_t flags;       // keep deleted flags (should be index_flags_t type)
        fileid_t dataid;     // datafile id where payload is located
        fileid_t indexid;    // indexfile id where this index entry is located
        uint32_t crc;        // the data payload crc32
        fileid_t parentid;   // parent index file id (history)
        uint32_t parentoff;  // parent index file offset (history)
        uint32_t timestamp;  // unix timestamp of key creation
        unsigned char id[256];  // the id accessor, dynamically loaded

    } zvs_index_entry_t;
typedef struct zvs_index_item_t {
        uint8_t idlength;    // length of the id, here uint8_t limits to 256 bytes
        uint32_t offset;     // offset on the corresponding datafile
        uint32_t length;     // length of the payload on the datafile
        uint32_t previous;   // previous entry offset

        // WARNING: 'previous' flag was buggy in early version, only in direct mode
        //          the flag was updated on overwrite when it should not have changed
        //          (previous entry in the file doesn't change even if new entries comes)

        uint8_t flags;       // key flags (eg: deleted)
        fileid_t dataid;     // datafile id where is stored the payload
        uint32_t timestamp;  // when was the key created (unix timestamp)
        uint32_t crc;        // the data payload crc32
        fileid_t parentid;   // history parent dataid ]
        uint32_t parentoff;  // history parent offset ]- used to keep history tracking
        unsigned char id[256];  // the id accessor, dynamically loaded

    } __attribute__((packed)) zvs_index_item_t;
