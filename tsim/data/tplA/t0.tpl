<html class="A0"><title>%title%</title><i>%date%|%root_path%|%wiki_path%|%css%|%encoding%</i>
%content%
</html>
