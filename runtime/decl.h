// The runtime as a B program sees it: by external name.
typedef long word;
extern word B_fout __asm__("b.fout");
void B_exit(void) __asm__("b.exit");
word B_char(word, ...) __asm__("b.char");
void B_lchar(word, ...) __asm__("b.lchar");
word B_read(void) __asm__("b.read");
word B_nread(word, ...) __asm__("b.nread");
void B_writeb(word, ...) __asm__("b.writeb");
void B_write(word, ...) __asm__("b.write");
word B_nwrite(word, ...) __asm__("b.nwrite");
void B_printd(word, ...) __asm__("b.printd");
void B_printo(word, ...) __asm__("b.printo");
void B_printf(word, ...) __asm__("b.printf");
void B_flush(void) __asm__("b.flush");
void B_start(void) __asm__("_start");
