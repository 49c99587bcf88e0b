// Combining classes and decompositions as the Go standard library's vendored x/text/unicode/norm has them.
package main
import ("fmt";"os";"gonorm/norm";"bufio")
func main(){
 f,_:=os.Create(os.Args[1]); w:=bufio.NewWriter(f); defer f.Close(); defer w.Flush()
 fmt.Fprintln(w,"# version",norm.Version)
 for c:=rune(0);c<=0x10ffff;c++{
  if c>=0xd800&&c<=0xdfff {continue}
  s:=string(c)
  p:=norm.NFD.PropertiesString(s)
  nfd,nfkd,nfc,nfkc:=norm.NFD.String(s),norm.NFKD.String(s),norm.NFC.String(s),norm.NFKC.String(s)
  if p.CCC()!=0||nfd!=s||nfkd!=s||nfc!=s {
   fmt.Fprintf(w,"%X;%d;%X;%X;%X;%X\n",c,p.CCC(),[]rune(nfd),[]rune(nfkd),[]rune(nfc),[]rune(nfkc))
  }
 }
}
