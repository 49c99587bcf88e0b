// Combining class, general category, age and raw (single-step) canonical decomposition from the system's ICU 74 (Unicode 15.1).
#include <unicode/uchar.h>
#include <unicode/unorm2.h>
#include <stdio.h>
int main(void){UErrorCode e=0;const UNormalizer2*n=unorm2_getNFCInstance(&e);printf("# %s\n",U_UNICODE_VERSION);
for(int c=0;c<0x110000;c++){if(c>=0xd800&&c<=0xdfff)continue;UChar b[64];e=0;int l=unorm2_getRawDecomposition(n,c,b,64,&e);
UVersionInfo v;u_charAge(c,v);
printf("%X;%d;%d;%d.%d;",c,u_getCombiningClass(c),u_charType(c),v[0],v[1]);
for(int i=0;i<l;){UChar32 x;U16_NEXT(b,i,l,x);printf("%X ",x);}printf("\n");}}
